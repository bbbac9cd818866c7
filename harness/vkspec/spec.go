// Package vkspec holds the reference reader shared by the harnesses.
package vkspec

// R reads a buffer most significant bit first.
type R struct {
	D []byte
	P int
}

func (r *R) F(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v += (int(r.D[r.P>>3]>>uint(7-(r.P&7))) & 1) << uint(n-1-i)
		r.P++
	}
	return v
}

func (r *R) Flag() bool { return r.F(1) == 1 }

// Su is the two's complement value of n bits.
func (r *R) Su(n int) int {
	s := r.F(1)
	return r.F(n-1) - s<<uint(n-1)
}

// Log2Floor is the index of the highest set bit of x > 0.
func Log2Floor(x int) int {
	n := -1
	for x > 0 {
		x >>= 1
		n++
	}
	return n
}

// Ns reads a truncated binary code over n values.
func (r *R) Ns(n int) int {
	w := Log2Floor(n) + 1
	m := 1<<uint(w) - n
	v := r.F(w - 1)
	if v < m {
		return v
	}
	return v<<1 - m + r.F(1)
}

// Uvlc reads an Exp-Golomb style code with at most max prefix zeros (ok is
// false beyond that).
func (r *R) Uvlc(max int) (v int, ok bool) {
	lz := 0
	for !r.Flag() {
		lz++
		if lz > max {
			return 0, false
		}
	}
	return r.F(lz) + 1<<uint(lz) - 1, true
}

func B(b bool) int {
	if b {
		return 1
	}
	return 0
}

func Clip3(lo, hi, x int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}
