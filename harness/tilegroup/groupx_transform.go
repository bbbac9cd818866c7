package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

// Reference one-dimensional transforms, on slices of the inputs.

// cosines holds round(4096*cos(i*pi/128)).
var cosines = []int{
	4096, 4095, 4091, 4085, 4076, 4065, 4052, 4036, 4017, 3996, 3973, 3948, 3920, 3889, 3857, 3822,
	3784, 3745, 3703, 3659, 3612, 3564, 3513, 3461, 3406, 3349, 3290, 3229, 3166, 3102, 3035, 2967,
	2896, 2824, 2751, 2675, 2598, 2520, 2440, 2359, 2276, 2191, 2106, 2019, 1931, 1842, 1751, 1660,
	1567, 1474, 1380, 1285, 1189, 1092, 995, 897, 799, 700, 601, 501, 401, 301, 201, 101, 0,
}

// xcos is cos(i*pi/128) in 12 fractional bits.
func xcos(i int) int {
	i = (i + 512) % 256
	if i > 128 {
		i = 256 - i
	}
	if i > 64 {
		return -cosines[128-i]
	}
	return cosines[i]
}

func xround(x int) int { return (x + 2048) >> 12 }

//verif:hook internal/util Clip3

// xclip limits x to r bits.
func xclip(x, r int) int {
	lo, hi := -(1 << (r - 1)), 1<<(r-1)-1
	return vk.Ite(x < lo, lo, vk.Ite(hi < x, hi, x))
}

// xFast puts one term in the place of the branches of Clip3;
// VerifX02_limit shows that they are the same.
func xFast() {
	util.VerifHook_Clip3 = func(lo, hi, x int) int {
		return vk.Ite(x < lo, lo, vk.Ite(hi < x, hi, x))
	}
}

// xWide and xHigh are the logarithms of the transform dimensions.
var xWide = []int{2, 3, 4, 5, 6, 2, 3, 3, 4, 4, 5, 5, 6, 2, 4, 3, 5, 4, 6}
var xHigh = []int{2, 3, 4, 5, 6, 3, 2, 4, 3, 5, 4, 6, 5, 4, 2, 5, 3, 6, 4}

// xv is a vector under transformation to a range of r bits.
type xv struct {
	v []int
	r int
}

// rot rotates (v[a], v[b]).
func (x xv) rot(a, b, angle int) {
	c, s := xcos(angle), xcos(angle-64)
	x.v[a], x.v[b] = xround(x.v[a]*c-x.v[b]*s), xround(x.v[a]*s+x.v[b]*c)
}

// rotf rotates and exchanges.
func (x xv) rotf(a, b, angle int) {
	x.rot(a, b, angle)
	x.v[a], x.v[b] = x.v[b], x.v[a]
}

// had replaces (v[a], v[b]) by sum and difference.
func (x xv) had(a, b int) {
	x.v[a], x.v[b] = xclip(x.v[a]+x.v[b], x.r), xclip(x.v[a]-x.v[b], x.r)
}

// mirror combines the n values from b with their mirror image; odd groups
// subtract the other way round.
func (x xv) mirror(b, n int, odd bool) {
	for i := 0; i < n/2; i++ {
		if odd {
			x.had(b+n-1-i, b+i)
		} else {
			x.had(b+i, b+n-1-i)
		}
	}
}

// mirrors combines consecutive groups of n among positions [from,to).
func (x xv) mirrors(from, to, n int) {
	for g := 0; from+g*n < to; g++ {
		x.mirror(from+g*n, n, g%2 == 1)
	}
}

func xrev(n, x int) int {
	y := 0
	for i := 0; i < n; i++ {
		y = y*2 + x>>i&1
	}
	return y
}

func refDCT(in []int, n, r int) []int {
	x := xv{make([]int, 1<<n), r}
	for i := range x.v {
		x.v[i] = in[xrev(n, i)]
	}
	// the 2 point transform, then halves of growing size
	x.rotf(0, 1, 32)
	if n >= 2 {
		x.rot(2, 3, 48)
		x.mirror(0, 4, false)
	}
	if n >= 3 {
		x.rot(4, 7, 56)
		x.rot(5, 6, 24)
		x.mirrors(4, 8, 2)
		x.rotf(6, 5, 32)
		x.mirror(0, 8, false)
	}
	if n >= 4 {
		for i, a := range []int{60, 28, 44, 12} {
			x.rot(8+i, 15-i, a)
		}
		x.mirrors(8, 16, 2)
		x.rotf(14, 9, 48)
		x.rotf(13, 10, 112)
		x.mirrors(8, 16, 4)
		x.rotf(13, 10, 32)
		x.rotf(12, 11, 32)
		x.mirror(0, 16, false)
	}
	if n >= 5 {
		for i, a := range []int{62, 30, 46, 14, 54, 22, 38, 6} {
			x.rot(16+i, 31-i, a)
		}
		x.mirrors(16, 32, 2)
		for i, a := range []int{56, 120, 24, 88} {
			p := []int{1, 2, 5, 6}[i]
			x.rotf(31-p, 16+p, a)
		}
		x.mirrors(16, 32, 4)
		for i, a := range []int{48, 48, 112, 112} {
			x.rotf(29-i, 18+i, a)
		}
		x.mirrors(16, 32, 8)
		for i := 0; i < 4; i++ {
			x.rotf(27-i, 20+i, 32)
		}
		x.mirror(0, 32, false)
	}
	if n >= 6 {
		for i := 0; i < 16; i++ {
			x.rot(32+i, 63-i, 63-4*xrev(4, i))
		}
		x.mirrors(32, 64, 2)
		for i, a := range []int{60, 124, 28, 92, 44, 108, 12, 76} {
			p := []int{1, 2, 5, 6, 9, 10, 13, 14}[i]
			x.rotf(63-p, 32+p, a)
		}
		x.mirrors(32, 64, 4)
		for i, a := range []int{56, 56, 120, 120, 24, 24, 88, 88} {
			p := []int{2, 3, 4, 5, 10, 11, 12, 13}[i]
			x.rotf(63-p, 32+p, a)
		}
		x.mirrors(32, 64, 8)
		for i := 0; i < 8; i++ {
			x.rotf(59-i, 36+i, 48+i/4*64)
		}
		x.mirrors(32, 64, 16)
		for i := 0; i < 8; i++ {
			x.rotf(55-i, 40+i, 32)
		}
		x.mirror(0, 64, false)
	}
	return x.v
}

func refADST4(in []int) []int {
	s1, s2, s3, s4 := 1321, 2482, 3344, 3803
	a := s1*in[0] + s4*in[2] + s2*in[3]
	b := s2*in[0] - s1*in[2] - s4*in[3]
	c := s3 * in[1]
	return []int{xround(a + c), xround(b + c), xround(s3 * (in[0] - in[2] + in[3])), xround(a + b - c)}
}

// refADST is the inverse ADST of 8 or 16 points.
func refADST(in []int, n, r int) []int {
	m := 1 << n
	x := xv{make([]int, m), r}
	for i := 0; i < m; i += 2 {
		x.v[i] = in[m-1-i]
		x.v[i+1] = in[i]
	}
	for i := 0; i < m; i += 2 {
		x.rotf(i, i+1, 64-32/m-i*64/m)
	}
	halves := func(g int) {
		for b := 0; b < m; b += g {
			for i := 0; i < g/2; i++ {
				x.had(b+i, b+i+g/2)
			}
		}
	}
	halves(m)
	if n == 4 {
		x.rotf(8, 9, 56)
		x.rotf(13, 12, 8)
		x.rotf(10, 11, 24)
		x.rotf(15, 14, 40)
		halves(8)
	}
	for b := 4; b < m; b += 8 {
		x.rotf(b, b+1, 48)
		x.rotf(b+3, b+2, 16)
	}
	halves(4)
	for b := 2; b < m; b += 4 {
		x.rotf(b, b+1, 32)
	}
	order := []int{0, 4, 6, 2, 3, 7, 5, 1}
	if n == 4 {
		order = []int{0, 8, 12, 4, 6, 14, 10, 2, 3, 11, 15, 7, 5, 13, 9, 1}
	}
	out := make([]int, m)
	for i, o := range order {
		out[i] = x.v[o]
		if i%2 == 1 {
			out[i] = -out[i]
		}
	}
	return out
}

func refIdentity(in []int, n int) []int {
	out := make([]int, 1<<n)
	for i := range out {
		switch n {
		case 2:
			out[i] = xround(in[i] * 5793)
		case 3:
			out[i] = in[i] * 2
		case 4:
			out[i] = xround(in[i] * 11586)
		case 5:
			out[i] = in[i] * 4
		}
	}
	return out
}

func refWHT(in []int, shift int) []int {
	a, c, d, b := in[0]>>shift, in[1]>>shift, in[2]>>shift, in[3]>>shift
	a += c
	d -= b
	e := (a - d) >> 1
	b = e - b
	c = e - c
	return []int{a - b, b, c, d + c}
}

// xOne runs the 1-D transform of kind 0 DCT, 1 ADST, 2 identity.
func refOne(in []int, kind, n, r int) []int {
	switch {
	case kind == 0:
		return refDCT(in, n, r)
	case kind == 2:
		return refIdentity(in, n)
	case n == 2:
		return refADST4(in)
	}
	return refADST(in, n, r)
}

// oneDim compares a transform of kind 0 DCT, 1 ADST, 2 identity with the
// reference.  Inputs have 20 bits, or r if that is less; with r above 30 no
// value reaches the clipping range.
func oneDim(kind, n, r int) {
	xFast()
	var t TileGroup
	in := make([]int, 1<<n)
	b := 20
	if r < b {
		b = r
	}
	for i := range in {
		in[i] = vk.IntAt("in", i, -(1 << (b - 1)), 1<<(b-1)-1)
		t.T[i] = in[i]
	}
	switch kind {
	case 0:
		t.inverseDCT(n, r)
	case 1:
		t.inverseADST(n, r)
	case 2:
		t.inverseIdentityTransform(n)
	}
	want := refOne(in, kind, n, r)
	for i := range in {
		vk.Assert(t.T[i] == want[i], "transformed value")
	}
	vk.Reach("end")
}
