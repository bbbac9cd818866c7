package main

// Hash-consed bit-vector / boolean terms with a light simplifier.
// w == 0 means boolean.  Every bit-vector term carries a sound signed
// interval [lo,hi] of the values it can take.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin // c + sum coefs[i]*args[i]
	OMul
	OSDiv
	OSRem
	OUDiv
	OURem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc
	OIte
	OEq
	OULt
	OSLt
	OBAnd
	OBOr
	OBNot
)

type Term struct {
	op    Op
	w     uint8
	exact bool // OLin: no wrap-around possible
	id    int32
	c     uint64
	args  []*Term
	coefs []uint64
	lo    int64
	hi    int64
	name  string
	hash  uint64
}

var (
	termTab   = map[uint64][]*Term{}
	termCount int32
	allVars   []*Term
	varByName = map[string]*Term{}
)

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func minS(w uint8) int64 { return -1 << (w - 1) }
func maxS(w uint8) int64 { return int64(mask(w) >> 1) }

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 29
	return h
}

func intern(t Term) *Term {
	h := mix(uint64(t.op), uint64(t.w))
	h = mix(h, t.c)
	for i, a := range t.args {
		h = mix(h, uint64(a.id))
		if t.coefs != nil {
			h = mix(h, t.coefs[i])
		}
	}
	for i := 0; i < len(t.name); i++ {
		h = mix(h, uint64(t.name[i]))
	}
next:
	for _, o := range termTab[h] {
		if o.op != t.op || o.w != t.w || o.c != t.c || len(o.args) != len(t.args) || o.name != t.name {
			continue
		}
		for i := range o.args {
			if o.args[i] != t.args[i] {
				continue next
			}
			if t.coefs != nil && o.coefs[i] != t.coefs[i] {
				continue next
			}
		}
		if x, ok := cutOf[o]; ok {
			return x
		}
		return o
	}
	n := new(Term)
	*n = t
	n.hash = h
	n.id = termCount
	termCount++
	termTab[h] = append(termTab[h], n)
	return n
}

// cutOf maps a term to the variable that stands for it (vk.Cut); cutDef holds
// the defining equation of each such variable.  Exploration treats the
// variable as unconstrained, which only adds behaviours; a violation is
// reported only if it persists with the definitions added back.
var (
	cutOf  = map[*Term]*Term{}
	cutDef = map[*Term]*Term{}
)

func cut(name string, t *Term) *Term {
	if t.isConst() || t.op == OVar || t.op == OSExt && t.args[0].op == OVar {
		return t
	}
	w := uint8(1)
	for w < t.w && (t.lo < minS(w) || t.hi > maxS(w)) {
		w++
	}
	v := mkVar(fmt.Sprintf("cut:%s:%d", name, t.id), w, t.lo, t.hi)
	x := mkSExt(v, t.w)
	cutDef[v] = mkEq(x, t)
	cutOf[t] = x
	return x
}

// cutDefs returns the definitions of every cut variable the terms depend on.
func cutDefs(ts ...*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if d, ok := cutDef[t]; ok {
			out = append(out, d)
			visit(d)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	if len(cutDef) == 0 {
		return nil
	}
	for _, t := range ts {
		visit(t)
	}
	return out
}

var (
	tTrue  = intern(Term{op: OConst, w: 0, c: 1})
	tFalse = intern(Term{op: OConst, w: 0, c: 0})
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkConst(w uint8, v uint64) *Term {
	v &= mask(w)
	s := sext64(v, w)
	return intern(Term{op: OConst, w: w, c: v, lo: s, hi: s})
}

func mkInt(v int64) *Term { return mkConst(64, uint64(v)) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) sval() int64   { return sext64(t.c, t.w) }

func mkVar(name string, w uint8, lo, hi int64) *Term {
	if v, ok := varByName[name]; ok {
		if w != v.w || (w != 0 && (v.lo != lo || v.hi != hi)) {
			panic(inconclusive("nondet variable redeclared with different range: " + name))
		}
		return v
	}
	v := intern(Term{op: OVar, w: w, name: name, lo: lo, hi: hi})
	varByName[name] = v
	allVars = append(allVars, v)
	return v
}

// ---------- intervals ----------

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, c/b == a
}

func addSat(a, b int64) (int64, bool) {
	if b == 0 {
		return a, true
	}
	return addOv(a, b)
}

// ---------- linear ----------

func mkLin(w uint8, c uint64, args []*Term, coefs []uint64) *Term {
	m := mask(w)
	type ent struct {
		t *Term
		k uint64
	}
	var ents []ent
	var add func(t *Term, k uint64)
	add = func(t *Term, k uint64) {
		k &= m
		if k == 0 {
			return
		}
		if t.op == OConst {
			c += t.c * k
			return
		}
		if t.op == OLin {
			c += t.c * k
			for i, a := range t.args {
				ents = append(ents, ent{a, t.coefs[i] * k & m})
			}
			return
		}
		ents = append(ents, ent{t, k})
	}
	for i, a := range args {
		add(a, coefs[i])
	}
	c &= m
	sort.Slice(ents, func(i, j int) bool { return ents[i].t.id < ents[j].t.id })
	out := ents[:0]
	for _, e := range ents {
		if n := len(out); n > 0 && out[n-1].t == e.t {
			out[n-1].k = (out[n-1].k + e.k) & m
			continue
		}
		out = append(out, e)
	}
	ents = out
	out = ents[:0]
	for _, e := range ents {
		if e.k&m != 0 {
			out = append(out, e)
		}
	}
	ents = out
	if len(ents) == 0 {
		return mkConst(w, c)
	}
	if len(ents) == 1 && ents[0].k == 1 && c == 0 {
		return ents[0].t
	}
	t := Term{op: OLin, w: w, c: c}
	lo := sext64(c, w)
	hi := lo
	ok := true
	for _, e := range ents {
		t.args = append(t.args, e.t)
		t.coefs = append(t.coefs, e.k)
		k := sext64(e.k, w)
		a, o1 := mulOv(e.t.lo, k)
		b, o2 := mulOv(e.t.hi, k)
		if a > b {
			a, b = b, a
		}
		var o3, o4 bool
		lo, o3 = addSat(lo, a)
		hi, o4 = addSat(hi, b)
		if !(o1 && o2 && o3 && o4) {
			ok = false
			break
		}
	}
	if len(t.args) != len(ents) {
		t.args = t.args[:0]
		t.coefs = t.coefs[:0]
		for _, e := range ents {
			t.args = append(t.args, e.t)
			t.coefs = append(t.coefs, e.k)
		}
	}
	if ok && lo >= minS(w) && hi <= maxS(w) {
		t.lo, t.hi = lo, hi
		t.exact = true
	} else {
		t.lo, t.hi = minS(w), maxS(w)
	}
	return intern(t)
}

func mkAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.c+b.c)
	}
	return mkLin(a.w, 0, []*Term{a, b}, []uint64{1, 1})
}
func mkSub(a, b *Term) *Term {
	return mkLin(a.w, 0, []*Term{a, b}, []uint64{1, ^uint64(0)})
}
func mkNeg(a *Term) *Term { return mkLin(a.w, 0, []*Term{a}, []uint64{^uint64(0)}) }
func mkMulC(a *Term, k uint64) *Term {
	return mkLin(a.w, 0, []*Term{a}, []uint64{k})
}

// iteConstLeaves reports whether t is an ite tree whose leaves are constants,
// with at most n leaves.
func iteConstLeaves(t *Term, n *int) bool {
	if t.op == OConst {
		*n--
		return *n >= 0
	}
	if t.op == OIte {
		return iteConstLeaves(t.args[1], n) && iteConstLeaves(t.args[2], n)
	}
	return false
}

func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return mkIte(t.args[0], mapLeaves(t.args[1], f), mapLeaves(t.args[2], f))
	}
	return f(t)
}

func mkMul(a, b *Term) *Term {
	if a.isConst() {
		return mkMulC(b, a.c)
	}
	if b.isConst() {
		return mkMulC(a, b.c)
	}
	// multiplication by a small selection of constants
	for k := 0; k < 2; k++ {
		n := 3
		if iteConstLeaves(b, &n) {
			return mapLeaves(b, func(l *Term) *Term { return mkMulC(a, l.c) })
		}
		a, b = b, a
	}
	// distribute scalar factors:  (k*x)*y -> k*(x*y)
	kk := uint64(1)
	if a.op == OLin && len(a.args) == 1 && a.c == 0 {
		kk *= a.coefs[0]
		a = a.args[0]
	}
	if b.op == OLin && len(b.args) == 1 && b.c == 0 {
		kk *= b.coefs[0]
		b = b.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := Term{op: OMul, w: a.w, args: []*Term{a, b}}
	t.lo, t.hi = minS(a.w), maxS(a.w)
	ok := true
	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
	for _, x := range []int64{a.lo, a.hi} {
		for _, y := range []int64{b.lo, b.hi} {
			p, o := mulOv(x, y)
			ok = ok && o
			lo = min(lo, p)
			hi = max(hi, p)
		}
	}
	if ok && lo >= minS(a.w) && hi <= maxS(a.w) {
		if a == b && lo < 0 {
			lo = 0
		}
		t.lo, t.hi = lo, hi
	}
	r := intern(t)
	if kk != 1 {
		return mkMulC(r, kk)
	}
	return r
}

// ---------- division ----------

func isPow2(v uint64) bool { return v != 0 && v&(v-1) == 0 }

func mkSDiv(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := a.sval(), b.sval()
		if y == -1 {
			return mkConst(w, uint64(-x))
		}
		return mkConst(w, uint64(x/y))
	}
	if b.isConst() && b.c == 1 {
		return a
	}
	if b.isConst() && isPow2(b.c) && b.sval() > 0 {
		k := uint64(bits.TrailingZeros64(b.c))
		if a.lo >= 0 {
			return mkAShr(a, mkConst(w, k))
		}
		// truncating division
		return mkIte(mkSLt(a, mkConst(w, 0)), mkNeg(mkAShr(mkNeg(a), mkConst(w, k))), mkAShr(a, mkConst(w, k)))
	}
	if a.op == OIte && b.isConst() {
		n := 64
		if iteConstLeaves(a, &n) {
			return mapLeaves(a, func(l *Term) *Term { return mkSDiv(l, b) })
		}
	}
	t := Term{op: OSDiv, w: w, args: []*Term{a, b}, lo: minS(w), hi: maxS(w)}
	if b.lo > 0 {
		c1, c2, c3, c4 := a.lo/b.lo, a.lo/b.hi, a.hi/b.lo, a.hi/b.hi
		t.lo = min(c1, c2, c3, c4)
		t.hi = max(c1, c2, c3, c4)
	}
	return intern(t)
}

func mkSRem(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := a.sval(), b.sval()
		if y == -1 {
			return mkConst(w, 0)
		}
		return mkConst(w, uint64(x%y))
	}
	if b.isConst() && isPow2(b.c) && b.sval() > 0 {
		if a.lo >= 0 {
			return mkAnd(a, mkConst(w, b.c-1))
		}
		m := mkConst(w, b.c-1)
		return mkIte(mkSLt(a, mkConst(w, 0)), mkNeg(mkAnd(mkNeg(a), m)), mkAnd(a, m))
	}
	if b.isConst() && a.lo >= 0 && b.sval() > 0 && a.hi < b.sval() {
		return a
	}
	t := Term{op: OSRem, w: w, args: []*Term{a, b}, lo: minS(w), hi: maxS(w)}
	if b.lo > 0 {
		m := b.hi - 1
		t.hi = m
		t.lo = -m
		if a.lo >= 0 {
			t.lo = 0
			t.hi = min(t.hi, a.hi)
		}
		if a.hi <= 0 {
			t.hi = 0
		}
	}
	return intern(t)
}

func mkUDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		return mkConst(a.w, a.c/b.c)
	}
	if a.lo >= 0 && b.lo > 0 {
		return mkSDiv(a, b)
	}
	if b.isConst() && isPow2(b.c) {
		return mkLShr(a, mkConst(a.w, uint64(bits.TrailingZeros64(b.c))))
	}
	return intern(Term{op: OUDiv, w: a.w, args: []*Term{a, b}, lo: minS(a.w), hi: maxS(a.w)})
}
func mkURem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		return mkConst(a.w, a.c%b.c)
	}
	if a.lo >= 0 && b.lo > 0 {
		return mkSRem(a, b)
	}
	if b.isConst() && isPow2(b.c) {
		return mkAnd(a, mkConst(a.w, b.c-1))
	}
	return intern(Term{op: OURem, w: a.w, args: []*Term{a, b}, lo: minS(a.w), hi: maxS(a.w)})
}

// ---------- bitwise ----------

func bitlen(v int64) int { return bits.Len64(uint64(v)) }

func mkAnd(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return mkConst(w, a.c&b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == mask(w) {
			return a
		}
		if isPow2(b.c+1) && a.lo >= 0 && uint64(a.hi) <= b.c {
			return a
		}
		if b.sval() > 0 && a.lo >= 0 && uint64(a.hi) < (b.c&-b.c) {
			return mkConst(w, 0)
		}
		if a.op == OAnd && a.args[1].isConst() {
			return mkAnd(a.args[0], mkConst(w, a.args[1].c&b.c))
		}
		// push masks into extensions and truncations
		if a.op == OSExt || a.op == OZExt {
			if x := a.args[0]; b.c <= mask(x.w) {
				return mkZExt(mkAnd(x, mkConst(x.w, b.c)), w)
			} else if a.op == OZExt {
				return mkZExt(mkAnd(x, mkConst(x.w, b.c&mask(x.w))), w)
			}
		}
		if a.op == OTrunc {
			x := a.args[0]
			return mkTrunc(mkAnd(x, mkConst(x.w, b.c)), w)
		}
		// a sum of distinct single-bit terms: select the masked bits
		if a.op == OLin && bitSum(a) {
			var ts []*Term
			var ks []uint64
			for i, k := range a.coefs {
				if k&b.c != 0 {
					ts = append(ts, a.args[i])
					ks = append(ks, k)
				}
			}
			return mkLin(w, a.c&b.c, ts, ks)
		}
		// low-bit mask of a linear term: reduce coefficients modulo 2^k
		if isPow2(b.c+1) && a.op == OLin {
			m := b.c
			ch := a.c&^m != 0
			for _, k := range a.coefs {
				if k&^m != 0 {
					ch = true
				}
			}
			if ch {
				ks := make([]uint64, len(a.coefs))
				for i, k := range a.coefs {
					ks[i] = k & m
				}
				return mkAnd(mkLin(w, a.c&m, a.args, ks), b)
			}
		}
		if a.op == OIte {
			n := 4
			if iteConstLeaves(a, &n) {
				return mapLeaves(a, func(l *Term) *Term { return mkConst(w, l.c&b.c) })
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	t := Term{op: OAnd, w: w, args: []*Term{a, b}, lo: minS(w), hi: maxS(w)}
	if a.lo >= 0 && b.lo >= 0 {
		t.lo, t.hi = 0, min(a.hi, b.hi)
	} else if a.lo >= 0 {
		t.lo, t.hi = 0, a.hi
	} else if b.lo >= 0 {
		t.lo, t.hi = 0, b.hi
	}
	return intern(t)
}

// bitSum: t is a sum of 0/1 terms with distinct power-of-two weights.
func bitSum(t *Term) bool {
	seen := t.c
	for i, k := range t.coefs {
		if !isPow2(k) || seen&k != 0 || t.args[i].lo < 0 || t.args[i].hi > 1 {
			return false
		}
		seen |= k
	}
	return true
}

func mkOr(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return mkConst(w, a.c|b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c == mask(w) {
			return b
		}
	}
	// disjoint bits: or == add
	if disjointBits(a, b) {
		return mkAdd(a, b)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	t := Term{op: OOr, w: w, args: []*Term{a, b}, lo: minS(w), hi: maxS(w)}
	if a.lo >= 0 && b.lo >= 0 {
		t.lo = max(a.lo, b.lo)
		t.hi = int64(1)<<max(bitlen(a.hi), bitlen(b.hi)) - 1
	} else if a.lo < 0 && a.hi < 0 || b.hi < 0 {
		t.hi = -1
	}
	return intern(t)
}

// tz returns a number of low bits of t that are certainly zero.
func tz(t *Term) int {
	switch t.op {
	case OConst:
		if t.c == 0 {
			return int(t.w)
		}
		return bits.TrailingZeros64(t.c)
	case OLin:
		z := int(t.w)
		if t.c != 0 {
			z = bits.TrailingZeros64(t.c)
		}
		for i, k := range t.coefs {
			z = min(z, bits.TrailingZeros64(k)+tz(t.args[i]))
		}
		return min(z, int(t.w))
	case OIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return min(tz(t.args[1]), tz(t.args[2]))
		}
	}
	return 0
}

func disjointBits(a, b *Term) bool {
	if a.lo >= 0 && b.lo >= 0 {
		if za := tz(a); za < 63 && b.hi < int64(1)<<za {
			return true
		}
		if zb := tz(b); zb < 63 && a.hi < int64(1)<<zb {
			return true
		}
	}
	return false
}

func mkXor(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return mkConst(w, a.c^b.c)
	}
	if a == b {
		return mkConst(w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	if b.isConst() && b.c == mask(w) { // ^a == -a-1
		return mkLin(w, ^uint64(0), []*Term{a}, []uint64{^uint64(0)})
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	t := Term{op: OXor, w: w, args: []*Term{a, b}, lo: minS(w), hi: maxS(w)}
	if a.lo >= 0 && b.lo >= 0 {
		t.lo = 0
		t.hi = int64(1)<<max(bitlen(a.hi), bitlen(b.hi)) - 1
	}
	return intern(t)
}

// shifts: amount has the same width as a; SMT semantics (>= w: 0 / sign fill)

func mkShl(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.c >= uint64(w) {
			return mkConst(w, 0)
		}
		return mkMulC(a, uint64(1)<<b.c)
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	n := 70
	if iteConstLeaves(b, &n) {
		return mapLeaves(b, func(l *Term) *Term { return mkShl(a, l) })
	}
	t := Term{op: OShl, w: w, args: []*Term{a, b}, lo: minS(w), hi: maxS(w)}
	if a.lo >= 0 && b.lo >= 0 && b.hi < int64(w)-1 && bitlen(a.hi)+int(b.hi) < int(w) {
		t.lo = a.lo << uint(b.lo)
		t.hi = a.hi << uint(b.hi)
	}
	return intern(t)
}

func mkLShr(a, b *Term) *Term {
	w := a.w
	if a.lo >= 0 {
		return mkAShr(a, b)
	}
	if b.isConst() {
		if b.c >= uint64(w) {
			return mkConst(w, 0)
		}
		if b.c == 0 {
			return a
		}
		if a.isConst() {
			return mkConst(w, a.c>>b.c)
		}
		if a.op == OTrunc && a.args[0].lo >= 0 && uint64(a.args[0].hi) <= mask(w) {
			x := a.args[0]
			return mkTrunc(mkAShr(x, mkConst(x.w, b.c)), w)
		}
		t := Term{op: OLShr, w: w, args: []*Term{a, b}, lo: 0, hi: int64(mask(w) >> b.c)}
		return intern(t)
	}
	return intern(Term{op: OLShr, w: w, args: []*Term{a, b}, lo: minS(w), hi: maxS(w)})
}

func mkAShr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		k := b.c
		if k >= uint64(w) {
			if a.lo >= 0 {
				return mkConst(w, 0)
			}
			k = uint64(w) - 1
			b = mkConst(w, k)
		}
		if k == 0 {
			return a
		}
		if a.isConst() {
			return mkConst(w, uint64(a.sval()>>k))
		}
		if a.lo>>k == a.hi>>k {
			return mkConst(w, uint64(a.lo>>k))
		}
		if a.op == OAShr && a.args[1].isConst() {
			return mkAShr(a.args[0], mkConst(w, a.args[1].c+k))
		}
		if a.op == OSExt {
			x := a.args[0]
			return mkSExt(mkAShr(x, mkConst(x.w, min(k, uint64(x.w)-1))), w)
		}
		if a.op == OZExt && k < uint64(a.args[0].w) {
			x := a.args[0]
			return mkZExt(mkLShr(x, mkConst(x.w, k)), w)
		}
		if a.op == OLin && a.exact {
			// exact division of all terms; the residual parts stay below
			all := true
			m := mask(uint8(k))
			for _, co := range a.coefs {
				if co&m != 0 {
					all = false
				}
			}
			if all {
				ks := make([]uint64, len(a.coefs))
				for i, co := range a.coefs {
					ks[i] = uint64(sext64(co, w) >> k)
				}
				return mkLin(w, uint64(sext64(a.c, w)>>k), a.args, ks)
			}
			// split off terms that are multiples of 2^k when rest in [0,2^k)
			var ra, qa []*Term
			var rk, qk []uint64
			for i, co := range a.coefs {
				if co&m == 0 {
					qa = append(qa, a.args[i])
					qk = append(qk, uint64(sext64(co, w)>>k))
				} else {
					ra = append(ra, a.args[i])
					rk = append(rk, co)
				}
			}
			if len(qa) > 0 {
				qc := uint64(sext64(a.c, w) >> k)
				rc := a.c & m
				r := mkLin(w, rc, ra, rk)
				if r.op != OLin || r.exact {
					if r.lo>>k == r.hi>>k {
						return mkLin(w, qc+uint64(r.lo>>k), qa, qk)
					}
				}
			}
		}
		if a.op == OIte {
			n := 8
			if iteConstLeaves(a, &n) {
				return mapLeaves(a, func(l *Term) *Term { return mkAShr(l, b) })
			}
		}
		return intern(Term{op: OAShr, w: w, args: []*Term{a, b}, lo: a.lo >> k, hi: a.hi >> k})
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	n := 70
	if iteConstLeaves(b, &n) {
		return mapLeaves(b, func(l *Term) *Term { return mkAShr(a, l) })
	}
	t := Term{op: OAShr, w: w, args: []*Term{a, b}}
	t.lo = min(a.lo, 0)
	t.hi = max(a.hi, 0)
	if b.lo >= 0 && b.lo < 64 {
		if a.lo >= 0 {
			t.hi = a.hi >> uint(b.lo)
		}
		if b.hi < 64 {
			if a.lo >= 0 {
				t.lo = a.lo >> uint(b.hi)
			}
			if a.hi < 0 {
				t.hi = a.hi >> uint(b.hi)
			}
		}
		if a.lo < 0 {
			t.lo = a.lo >> uint(b.lo)
		}
	} else if a.hi < 0 {
		t.hi = -1
	}
	return intern(t)
}

// ---------- width changes ----------

func mkZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.c)
	}
	if a.lo >= 0 {
		return mkSExt(a, w)
	}
	if a.op == OTrunc && a.args[0].lo >= 0 && uint64(a.args[0].hi) <= mask(a.w) {
		x := a.args[0]
		if x.w > w {
			return mkTrunc(x, w)
		}
		return mkSExt(x, w)
	}
	return intern(Term{op: OZExt, w: w, args: []*Term{a}, lo: 0, hi: int64(mask(a.w))})
}

func mkSExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, uint64(a.sval()))
	}
	if a.op == OSExt {
		return mkSExt(a.args[0], w)
	}
	if a.op == OZExt {
		return mkZExt(a.args[0], w)
	}
	if a.op == OTrunc && a.args[0].lo >= minS(a.w) && a.args[0].hi <= maxS(a.w) {
		x := a.args[0]
		if x.w > w {
			return mkTrunc(x, w)
		}
		return mkSExt(x, w)
	}
	if a.op == OIte {
		n := 40
		if iteConstLeaves(a, &n) {
			return mapLeaves(a, func(l *Term) *Term { return mkSExt(l, w) })
		}
	}
	return intern(Term{op: OSExt, w: w, args: []*Term{a}, lo: a.lo, hi: a.hi})
}

func mkTrunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.c)
	}
	if a.op == OSExt || a.op == OZExt {
		i := a.args[0]
		if i.w == w {
			return i
		}
		if i.w > w {
			return mkTrunc(i, w)
		}
		if a.op == OSExt {
			return mkSExt(i, w)
		}
		return mkZExt(i, w)
	}
	if a.op == OIte {
		n := 40
		if iteConstLeaves(a, &n) {
			return mapLeaves(a, func(l *Term) *Term { return mkTrunc(l, w) })
		}
	}
	t := Term{op: OTrunc, w: w, args: []*Term{a}, lo: minS(w), hi: maxS(w)}
	if a.lo >= minS(w) && a.hi <= maxS(w) {
		t.lo, t.hi = a.lo, a.hi
	}
	return intern(t)
}

// ---------- booleans ----------

func mkNot(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.c == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return intern(Term{op: OBNot, args: []*Term{a}})
}

func compl(a, b *Term) bool {
	return (a.op == OBNot && a.args[0] == b) || (b.op == OBNot && b.args[0] == a)
}

func mkBAnd(xs ...*Term) *Term { return mkNary(OBAnd, xs) }
func mkBOr(xs ...*Term) *Term  { return mkNary(OBOr, xs) }

func mkNary(op Op, xs []*Term) *Term {
	unit, zero := tTrue, tFalse
	dual := OBOr
	if op == OBOr {
		unit, zero = tFalse, tTrue
		dual = OBAnd
	}
	var out []*Term
	for _, x := range xs {
		if x == zero {
			return zero
		}
		if x == unit {
			continue
		}
		if x.op == op {
			out = append(out, x.args...)
		} else {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	j := 0
	for i, x := range out {
		if i > 0 && out[j-1] == x {
			continue
		}
		out[j] = x
		j++
	}
	out = out[:j]
	if len(out) > 1 && len(out) <= 64 {
		set := make(map[*Term]bool, len(out))
		for _, x := range out {
			set[x] = true
		}
		for _, x := range out {
			if set[mkNot(x)] {
				return zero
			}
		}
		// absorption / unit resolution in dual children
		changed := false
		for i, x := range out {
			if x.op == dual && len(x.args) <= 16 {
				var keep []*Term
				absorbed := false
				for _, y := range x.args {
					if set[y] && y != x {
						absorbed = true
						break
					}
					if set[mkNot(y)] {
						continue
					}
					keep = append(keep, y)
				}
				if absorbed {
					out[i] = unit
					changed = true
				} else if len(keep) != len(x.args) {
					out[i] = mkNary(dual, keep)
					changed = true
				}
			}
		}
		if changed {
			return mkNary(op, append([]*Term(nil), out...))
		}
		// (a & b) | (a & !b) == a   (and dual) for pairs
		if len(out) == 2 && out[0].op == dual && out[1].op == dual {
			if r := factor(op, dual, out[0], out[1]); r != nil {
				return r
			}
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return intern(Term{op: op, args: append([]*Term(nil), out...)})
}

func factor(op, dual Op, a, b *Term) *Term {
	in := map[*Term]bool{}
	for _, x := range a.args {
		in[x] = true
	}
	var common, rb []*Term
	for _, y := range b.args {
		if in[y] {
			common = append(common, y)
			delete(in, y)
		} else {
			rb = append(rb, y)
		}
	}
	if len(common) == 0 {
		return nil
	}
	var ra []*Term
	for _, x := range a.args {
		if in[x] {
			ra = append(ra, x)
		}
	}
	rest := mkNary(op, []*Term{mkNary(dual, ra), mkNary(dual, rb)})
	return mkNary(dual, append(common, rest))
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return mkNot(a)
		}
		if compl(a, b) {
			return tFalse
		}
		if a.id > b.id {
			a, b = b, a
		}
		return intern(Term{op: OEq, args: []*Term{a, b}})
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c == b.c)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tFalse
	}
	if a.op == OLin || b.op == OLin {
		d := mkSub(a, b)
		if d.isConst() {
			return mkBool(d.c == 0)
		}
		if d.op != OLin {
			a, b = d, mkConst(a.w, 0)
		} else if len(d.args) == 1 && d.coefs[0]&1 == 1 {
			// odd coefficient invertible
			inv := d.coefs[0]
			for i := 0; i < 6; i++ {
				inv *= 2 - d.coefs[0]*inv
			}
			a, b = d.args[0], mkConst(a.w, -d.c*inv)
			if a.hi < b.lo || b.hi < a.lo {
				return tFalse
			}
		} else if d.exact && (d.lo > 0 || d.hi < 0) {
			return tFalse
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if (a.op == OSExt || a.op == OZExt) && fitsExt(a, b) {
			return mkEq(a.args[0], mkConst(a.args[0].w, b.c))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: OEq, args: []*Term{a, b}})
}

func fitsExt(a, b *Term) bool {
	w := a.args[0].w
	if a.op == OSExt {
		return b.sval() >= minS(w) && b.sval() <= maxS(w)
	}
	return b.c <= mask(w)
}

func mkSLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.hi < b.lo {
		return tTrue
	}
	if a.lo >= b.hi {
		return tFalse
	}
	if a.op == OLin && a.exact || b.op == OLin && b.exact {
		if d := mkSub(a, b); d.op == OLin && d.exact || d.op != OLin {
			if d.hi < 0 && d.exact {
				return tTrue
			}
			if d.lo >= 0 && d.exact {
				return tFalse
			}
			// x + c < k  ->  x < k - c
			if d.op == OLin && d.exact && len(d.args) == 1 {
				w := a.w
				switch sext64(d.coefs[0], w) {
				case 1:
					a, b = d.args[0], mkConst(w, -d.c)
				case -1: // c - x < 0 <-> c < x
					a, b = mkConst(w, d.c), d.args[0]
				}
				if a.hi < b.lo {
					return tTrue
				}
				if a.lo >= b.hi {
					return tFalse
				}
			}
		}
	}
	// canonical form against constants: always  x < k
	if a.isConst() && !b.isConst() {
		return mkNot(mkSLt(b, mkConst(a.w, uint64(a.sval()+1))))
	}
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return mkIte(a.args[0], mkSLt(a.args[1], b), mkSLt(a.args[2], b))
	}
	if b.isConst() {
		if b.sval() == a.lo+1 {
			return mkEq(a, mkConst(a.w, uint64(a.lo)))
		}
		if b.sval() == a.hi {
			return mkNot(mkEq(a, b))
		}
	}
	return intern(Term{op: OSLt, args: []*Term{a, b}})
}

func mkULt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c < b.c)
	}
	if a.lo >= 0 && b.lo >= 0 {
		return mkSLt(a, b)
	}
	return intern(Term{op: OULt, args: []*Term{a, b}})
}

func mkSLe(a, b *Term) *Term { return mkNot(mkSLt(b, a)) }
func mkULe(a, b *Term) *Term { return mkNot(mkULt(b, a)) }

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == OBNot {
		return mkIte(c.args[0], b, a)
	}
	if a.w == 0 {
		switch {
		case a == tTrue:
			return mkBOr(c, b)
		case a == tFalse:
			return mkBAnd(mkNot(c), b)
		case b == tTrue:
			return mkBOr(mkNot(c), a)
		case b == tFalse:
			return mkBAnd(c, a)
		case compl(a, b):
			return mkEq(c, a)
		case c == a:
			return mkBOr(c, b)
		case c == b:
			return mkBAnd(c, a)
		}
		return intern(Term{op: OIte, args: []*Term{c, a, b}})
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if m := mkMinMax(c, a, b); m != nil {
		return m
	}
	// ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return mkIte(mkBOr(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return mkIte(mkBAnd(mkNot(c), b.args[0]), b.args[1], a)
	}
	if a.op == OIte && a.args[2] == b {
		return mkIte(mkBAnd(c, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return mkIte(mkBAnd(c, mkNot(a.args[0])), a.args[2], b)
	}
	t := Term{op: OIte, w: a.w, args: []*Term{c, a, b}, lo: min(a.lo, b.lo), hi: max(a.hi, b.hi)}
	// refine interval for min/max/abs/clip shapes
	refineIte(&t, c, a, b)
	return intern(t)
}

// mkMinMax gives minima and maxima one form, however they are compared, or
// returns nil for other terms.
func mkMinMax(c, a, b *Term) *Term {
	if c.op != OSLt {
		return nil
	}
	x, y := c.args[0], c.args[1]
	near := func(t *Term) bool { return t == x || t == y || t.op == OLin && len(t.args) == 1 && t.args[0] == x }
	if !near(a) && !near(b) || a.isConst() && b.isConst() {
		return nil
	}
	lt, gt := mkSLt(a, b), mkSLt(b, a)
	min := c == lt || c == mkNot(gt)
	if !min && c != gt && c != mkNot(lt) {
		return nil
	}
	if a.isConst() || !b.isConst() && b.id < a.id {
		a, b, lt = b, a, gt
	}
	if lt == tTrue || lt == tFalse || lt.op == OBNot {
		return nil
	}
	if !min {
		a, b = b, a
	}
	t := Term{op: OIte, w: a.w, args: []*Term{lt, a, b}}
	if min {
		t.lo, t.hi = minI(a.lo, b.lo), minI(a.hi, b.hi)
	} else {
		t.lo, t.hi = maxI(a.lo, b.lo), maxI(a.hi, b.hi)
	}
	return intern(t)
}

func minI(a, b int64) int64 { return min(a, b) }
func maxI(a, b int64) int64 { return max(a, b) }

// refineIte tightens the interval of ite(x<k, a, b) when a or b is x (or -x):
// the shapes produced by Min, Max, Abs and Clip.
func refineIte(t *Term, c, a, b *Term) {
	if c.op != OSLt {
		return
	}
	x, y := c.args[0], c.args[1]
	rng := func(v *Term, pos bool) (int64, int64) {
		lo, hi := v.lo, v.hi
		if pos { // x < y
			if v == x && y.hi != math.MinInt64 {
				hi = min(hi, y.hi-1)
			}
			if v == y && x.lo != math.MaxInt64 {
				lo = max(lo, x.lo+1)
			}
			if v.op == OLin && v.exact && len(v.args) == 1 && v.args[0] == x && sext64(v.coefs[0], v.w) == -1 && y.isConst() {
				// v = k - x with x < y
				lo = max(lo, sext64(v.c, v.w)-(y.hi-1))
			}
		} else { // x >= y
			if v == x {
				lo = max(lo, y.lo)
			}
			if v == y {
				hi = min(hi, x.hi)
			}
			if v.op == OLin && v.exact && len(v.args) == 1 && v.args[0] == x && sext64(v.coefs[0], v.w) == -1 && y.isConst() {
				hi = min(hi, sext64(v.c, v.w)-y.lo)
			}
		}
		return lo, hi
	}
	l1, h1 := rng(a, true)
	l2, h2 := rng(b, false)
	if l1 > h1 || l2 > h2 {
		return
	}
	t.lo = max(t.lo, min(l1, l2))
	t.hi = min(t.hi, max(h1, h2))
}

// ---------- evaluation ----------

type Model struct {
	vals map[string]uint64
	memo map[int32]uint64
	// guess numbers a guessed model (guess.go); 0 is a solver's.
	guess int
}

func newModel(v map[string]uint64) *Model {
	return &Model{vals: v, memo: map[int32]uint64{}, guess: 0}
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		if v, ok := m.vals[t.name]; ok {
			return v & maskB(t.w)
		}
		if m.guess > 0 {
			v := m.guessVar(t)
			m.vals[t.name] = v
			return v
		}
		if t.w == 0 {
			return 0
		}
		if t.lo <= 0 && t.hi >= 0 {
			return 0
		}
		return uint64(t.lo) & mask(t.w)
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	v := m.eval1(t)
	m.memo[t.id] = v
	return v
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval1(t *Term) uint64 {
	mk := maskB(t.w)
	switch t.op {
	case OLin:
		r := t.c
		for i, a := range t.args {
			r += t.coefs[i] * m.eval(a)
		}
		return r & mk
	case OMul:
		return m.eval(t.args[0]) * m.eval(t.args[1]) & mk
	case OIte:
		if m.eval(t.args[0]) != 0 {
			return m.eval(t.args[1])
		}
		return m.eval(t.args[2])
	case OBAnd:
		for _, a := range t.args {
			if m.eval(a) == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for _, a := range t.args {
			if m.eval(a) != 0 {
				return 1
			}
		}
		return 0
	case OBNot:
		return 1 - m.eval(t.args[0])
	case OZExt:
		return m.eval(t.args[0])
	case OSExt:
		return uint64(sext64(m.eval(t.args[0]), t.args[0].w)) & mk
	case OTrunc:
		return m.eval(t.args[0]) & mk
	}
	a, b := m.eval(t.args[0]), m.eval(t.args[1])
	w := t.args[0].w
	sa, sb := int64(0), int64(0)
	if w > 0 {
		sa, sb = sext64(a, w), sext64(b, w)
	}
	switch t.op {
	case OEq:
		return b2u(a == b)
	case OSLt:
		return b2u(sa < sb)
	case OULt:
		return b2u(a < b)
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & mk
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & mk
	case OSDiv:
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return mk
		}
		if sb == -1 {
			return uint64(-sa) & mk
		}
		return uint64(sa/sb) & mk
	case OSRem:
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & mk
	case OUDiv:
		if b == 0 {
			return mk
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}
