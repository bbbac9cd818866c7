package util

import "github.com/m4tthewde/gov1/internal/vk"

func specRecenter(r, v int) int {
	if v > 2*r {
		return v
	}
	if v%2 == 1 {
		return r - (v+1)/2
	}
	return r + v/2
}

//verif:bounds references and codes 0..65535
func VerifU02_recenter() {
	r := vk.Int("r", 0, 65535)
	v := vk.Int("v", 0, 65535)
	w := vk.Int("w", 0, 65535)
	x, y := InverseRecenter(r, v), InverseRecenter(r, w)
	vk.Assert(x == specRecenter(r, v), "recentring maps codes alternately below and above the reference")
	vk.Assert(x >= 0, "recentring yields a non-negative value")
	vk.Assert(v == w || x != y, "recentring is injective")
	vk.Reach("end")
}

//verif:bounds alphabets of 1..64 values, every reference and code inside the alphabet
func VerifU02_deinterleave() {
	max := vk.Split("max", vk.Int("max", 1, 64), 1, 64)
	ref := vk.Int("ref", 0, 63)
	d := vk.Int("d", 0, 63)
	e := vk.Int("e", 0, 63)
	vk.Assume(ref < max)
	vk.Assume(d < max)
	vk.Assume(e < max)
	x, y := NegDeinterleave(d, ref, max), NegDeinterleave(e, ref, max)
	vk.Assert(vk.And(x >= 0, x < max), "deinterleaving stays inside the alphabet")
	vk.Assert(d == e || x != y, "deinterleaving is a bijection")
	vk.Assert(d != 0 || x == ref || ref >= max-1 && x == max-1, "code zero is the reference")
	// closeness: while both neighbours exist the code orders by distance
	room := ref
	if max-1-ref < room {
		room = max - 1 - ref
	}
	if ref < max-1 && d <= 2*room {
		want := ref - d/2
		if d%2 == 1 {
			want = ref + (d+1)/2
		}
		vk.Assert(x == want, "codes alternate above and below the reference")
	}
	if ref >= max-1 && ref > 0 {
		vk.Assert(x == max-1-d, "a reference at the top counts downwards")
	}
	if ref < max-1 && d > 2*room {
		if room == ref {
			vk.Assert(x == d, "the tail above keeps its code")
		} else {
			vk.Assert(x == max-1-d, "the tail below is mirrored")
		}
	}
	vk.Reach("end")
}

//verif:bounds angles -512..511
func VerifU02_trig() {
	a := vk.Int("a", -512, 511)
	vk.Assert(Cos128(a) == specCos[a&255], "cosine of every quadrant")
	vk.Assert(Sin128(a) == specCos[(a-64)&255], "sine of every quadrant")
	vk.Reach("end")
}

//verif:bounds widths 0..16
func VerifU02_brev() {
	n := vk.Split("n", vk.Int("n", 0, 16), 0, 16)
	x := vk.Int("x", 0, 65535)
	vk.Assume(x < 1<<uint(n))
	r := Brev(n, x)
	want := 0
	for i := 0; i < n; i++ {
		want |= x >> uint(i) & 1 << uint(n-1-i)
	}
	vk.Assert(r == want, "bit reversal")
	vk.Reach("end")
}

//verif:bounds slices of 1..5 five-bit values, every sub-range
func VerifU02_sort() {
	n := vk.Split("n", vk.Int("n", 1, 5), 1, 5)
	i1 := vk.Split("i1", vk.Int("i1", 0, 4), 0, 4)
	i2 := vk.Split("i2", vk.Int("i2", 0, 4), 0, 4)
	vk.Assume(i1 <= i2)
	vk.Assume(i2 < n)
	a := vk.Ints("a", n, 0, 31)
	old := make([]int, n)
	copy(old, a)
	probe := vk.Int("probe", 0, 31)
	b := Sort(a, i1, i2)
	vk.Assert(len(b) == n, "sorting keeps the length")
	c1, c2 := 0, 0
	for i := 0; i < n; i++ {
		if i < i1 || i > i2 {
			vk.Assert(b[i] == old[i], "values outside the range stay")
			continue
		}
		if i > i1 {
			vk.Assert(b[i-1] <= b[i], "the range is ascending")
		}
		c1 += vk.Ite(old[i] == probe, 1, 0)
		c2 += vk.Ite(b[i] == probe, 1, 0)
	}
	vk.Assert(c1 == c2, "the range is a permutation")
	vk.Reach("end")
}
