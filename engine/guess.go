package main

import "hash/fnv"

// A guessed model assigns every variable a value of its range without asking
// the solver.  Guesses are only ever used to find a counterexample sooner
// (harnesses marked //verif:guess, whose arithmetic makes satisfiable queries
// slow): a guess that satisfies the path condition and the failing condition
// is a model like the solver's.  Nothing is discharged by guessing.

func newGuess(i int) *Model {
	m := newModel(map[string]uint64{})
	m.guess = i + 1
	return m
}

func (m *Model) guessVar(t *Term) uint64 {
	h := fnv.New64a()
	h.Write([]byte(t.name))
	h.Write([]byte{byte(m.guess)})
	r := h.Sum64()
	r ^= r >> 29
	r *= 0xbf58476d1ce4e5b9
	r ^= r >> 32
	if t.w == 0 {
		return r & 1
	}
	n := uint64(t.hi-t.lo) + 1
	zero := int64(0)
	if t.lo > 0 {
		zero = t.lo
	} else if t.hi < 0 {
		zero = t.hi
	}
	uni := t.hi
	if n != 0 {
		uni = t.lo + int64((r>>8)%n)
	}
	v := uni
	switch m.guess % 8 {
	case 1:
		v = t.hi
	case 2:
		v = t.lo
	case 3, 7:
		if r&7 != 0 {
			v = zero
		}
	case 4:
		v = zero + int64(r>>8%7) - 3
		if v < t.lo || v > t.hi {
			v = uni
		}
	case 5:
		if r&1 == 0 {
			v = t.lo
		} else {
			v = t.hi
		}
	}
	return uint64(v) & mask(t.w)
}

// tryGuess looks for a guess that reaches st and makes bad true.
func (ex *Exec) tryGuess(st *State, bad *Term) *Model {
	if len(cutDefs(append([]*Term{bad}, st.pc...)...)) != 0 {
		return nil
	}
	for i := len(ex.guesses); i < ex.guess; i++ {
		ex.guesses = append(ex.guesses, newGuess(i))
	}
	for _, m := range ex.guesses {
		if ex.holds(m, st.pc, bad) {
			return m
		}
	}
	return nil
}
