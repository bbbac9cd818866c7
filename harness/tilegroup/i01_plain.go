package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

func iDC(size int, sparse bool) {
	plane, depth := 2, 10
	if iWide[size]*iHigh[size] < 512 {
		plane, depth = vk.Split("p", vk.Int("plane", 0, 1), 0, 1)*2, iDepth()
	}
	b := iNew(size, plane, depth, 4, 8, 40, 40, true, sparse)
	b.iHave()
	sum, n := 0, 0
	if b.left {
		for i := 0; i < b.h; i++ {
			sum += b.L(i)
		}
		n += b.h
	}
	if b.above {
		for i := 0; i < b.w; i++ {
			sum += b.A(i)
		}
		n += b.w
	}
	v := 1 << (b.depth - 1)
	if n > 0 {
		v = (sum + n/2) / n
	}
	b.check(0, func(i, j int) int { return v })
}

var iWeights = map[int][]int{
	4:  {255, 149, 85, 64},
	8:  {255, 197, 146, 105, 73, 50, 37, 32},
	16: {255, 225, 196, 170, 145, 123, 102, 84, 68, 54, 43, 33, 26, 20, 17, 16},
	32: {255, 240, 225, 210, 196, 182, 169, 157, 145, 133, 122, 111, 101, 92, 83, 74, 66, 59, 52, 45, 39, 34, 29, 25, 21, 17, 14, 12, 10, 9, 8, 8},
	64: {255, 248, 240, 233, 225, 218, 210, 203, 196, 189, 182, 176, 169, 163, 156, 150, 144, 138, 133, 127, 121, 116, 111, 106, 101, 96, 91, 86, 82, 77, 73, 69,
		65, 61, 57, 54, 50, 47, 44, 41, 38, 35, 32, 29, 27, 25, 22, 20, 18, 16, 15, 13, 12, 10, 9, 8, 7, 6, 6, 5, 5, 4, 4, 4},
}

func iSmooth(size, mode int, sparse bool) {
	b := iNew(size, 0, 12, 4, 8, 40, 40, true, sparse)
	b.iHave()
	wx, wy := iWeights[b.w], iWeights[b.h]
	b.check(mode, func(i, j int) int {
		v := wy[i]*b.A(j) + (256-wy[i])*b.L(b.h-1)
		h := wx[j]*b.L(i) + (256-wx[j])*b.A(b.w-1)
		switch mode {
		case 10:
			return (v + 128) >> 8
		case 11:
			return (h + 128) >> 8
		}
		return (v + h + 256) >> 9
	})
}

func iPaeth(size, depth int, sparse bool) {
	b := iNew(size, 0, depth, 4, 8, 40, 40, true, sparse)
	b.iHave()
	abs := func(x int) int { return vk.Ite(x < 0, -x, x) }
	b.check(12, func(i, j int) int {
		l, a, c := b.L(i), b.A(j), b.A(-1)
		dl, da, dc := abs(a-c), abs(l-c), abs(l+a-c-c)
		return vk.Ite(vk.And(dl <= da, dl <= dc), l, vk.Ite(da <= dc, a, c))
	})
}

//verif:bounds every limit and value below 2^40
func VerifI01_limit() {
	lo, hi, x := vk.Int("lo", -(1<<40), 1<<40), vk.Int("hi", -(1<<40), 1<<40), vk.Int("x", -(1<<40), 1<<40)
	vk.Assume(lo <= hi)
	vk.Assert(util.Clip3(lo, hi, x) == vk.Ite(x < lo, lo, vk.Ite(hi < x, hi, x)), "limited value")
	vk.Reach("end")
}

//verif:bounds 4x4, every edge sample, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc4x4() { iDC(0, false) }

//verif:bounds 8x8, every edge sample, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc8x8() { iDC(1, false) }

//verif:bounds 16x16, the edge samples at the ends and the middle, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc16x16() { iDC(2, true) }

//verif:bounds 32x32, the edge samples at the ends and the middle, every availability, chroma, 10 bits
//verif:loop 5000
func VerifI01_dc32x32() { iDC(3, true) }

//verif:bounds 64x64, the edge samples at the ends and the middle, every availability, chroma, 10 bits
//verif:loop 5000
func VerifI01_dc64x64() { iDC(4, true) }

//verif:bounds 4x8, every edge sample, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc4x8() { iDC(5, false) }

//verif:bounds 8x4, every edge sample, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc8x4() { iDC(6, false) }

//verif:bounds 8x16, every edge sample, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc8x16() { iDC(7, false) }

//verif:bounds 16x8, every edge sample, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc16x8() { iDC(8, false) }

//verif:bounds 16x32, the edge samples at the ends and the middle, every availability, chroma, 10 bits
//verif:loop 5000
func VerifI01_dc16x32() { iDC(9, true) }

//verif:bounds 32x16, the edge samples at the ends and the middle, every availability, chroma, 10 bits
//verif:loop 5000
func VerifI01_dc32x16() { iDC(10, true) }

//verif:bounds 32x64, the edge samples at the ends and the middle, every availability, chroma, 10 bits
//verif:loop 5000
func VerifI01_dc32x64() { iDC(11, true) }

//verif:bounds 64x32, the edge samples at the ends and the middle, every availability, chroma, 10 bits
//verif:loop 5000
func VerifI01_dc64x32() { iDC(12, true) }

//verif:bounds 4x16, every edge sample, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc4x16() { iDC(13, false) }

//verif:bounds 16x4, every edge sample, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc16x4() { iDC(14, false) }

//verif:bounds 8x32, the edge samples at the ends and the middle, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc8x32() { iDC(15, true) }

//verif:bounds 32x8, the edge samples at the ends and the middle, every availability, luma and chroma, 8, 10 and 12 bits
//verif:loop 5000
func VerifI01_dc32x8() { iDC(16, true) }

//verif:bounds 16x64, the edge samples at the ends and the middle, every availability, chroma, 10 bits
//verif:loop 5000
func VerifI01_dc16x64() { iDC(17, true) }

//verif:bounds 64x16, the edge samples at the ends and the middle, every availability, chroma, 10 bits
//verif:loop 5000
func VerifI01_dc64x16() { iDC(18, true) }

//verif:bounds 4x4, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth4x4() { iSmooth(0, 9, false) }

//verif:bounds 4x8, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth4x8() { iSmooth(5, 9, false) }

//verif:bounds 8x4, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth8x4() { iSmooth(6, 9, false) }

//verif:bounds 8x8, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth8x8() { iSmooth(1, 9, false) }

//verif:bounds 16x8, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth16x8() { iSmooth(8, 9, false) }

//verif:bounds 16x16, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth16x16() { iSmooth(2, 9, false) }

//verif:bounds 4x16, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth4x16() { iSmooth(13, 9, false) }

//verif:bounds 16x4, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth16x4() { iSmooth(14, 9, false) }

//verif:bounds 32x8, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth32x8() { iSmooth(16, 9, false) }

//verif:bounds 16x32, the edge samples at the ends and the middle of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth16x32() { iSmooth(9, 9, true) }

//verif:bounds 32x32, the edge samples at the ends and the middle of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth32x32() { iSmooth(3, 9, true) }

//verif:bounds 16x64, the edge samples at the ends and the middle of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth16x64() { iSmooth(17, 9, true) }

//verif:bounds 64x64, the edge samples at the ends and the middle of 12 bits, every availability
//verif:loop 5000
func VerifI01_smooth64x64() { iSmooth(4, 9, true) }

//verif:bounds 4x4, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothv4x4() { iSmooth(0, 10, false) }

//verif:bounds 8x16, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothv8x16() { iSmooth(7, 10, false) }

//verif:bounds 16x32, the edge samples at the ends and the middle of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothv16x32() { iSmooth(9, 10, true) }

//verif:bounds 64x16, the edge samples at the ends and the middle of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothv64x16() { iSmooth(18, 10, true) }

//verif:bounds 4x4, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothh4x4() { iSmooth(0, 11, false) }

//verif:bounds 16x8, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothh16x8() { iSmooth(8, 11, false) }

//verif:bounds 32x16, the edge samples at the ends and the middle of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothh32x16() { iSmooth(10, 11, true) }

//verif:bounds 16x64, the edge samples at the ends and the middle of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothh16x64() { iSmooth(17, 11, true) }

//verif:bounds 8x8, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothv8x8() { iSmooth(1, 10, false) }

//verif:bounds 8x8, every edge sample of 12 bits, every availability
//verif:loop 5000
func VerifI01_smoothh8x8() { iSmooth(1, 11, false) }

//verif:bounds 4x4, every edge sample of 8 bits, every availability
//verif:time 300
func VerifI01_paeth4x4() { iPaeth(0, 8, false) }

//verif:bounds 4x8, every edge sample of 8 bits, every availability
//verif:time 300
func VerifI01_paeth4x8() { iPaeth(5, 8, false) }

//verif:bounds 8x4, every edge sample of 8 bits, every availability
//verif:time 300
func VerifI01_paeth8x4() { iPaeth(6, 8, false) }

//verif:bounds 4x16, the edge samples at the ends and the middle of 8 bits, every availability
//verif:time 300
func VerifI01_paeth4x16() { iPaeth(13, 8, true) }

//verif:bounds 4x4, every edge sample of 12 bits, every availability
func VerifI01_paeth12() { iPaeth(0, 12, false) }
