package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

// The one-dimensional transforms are replaced by a linear map that depends
// on the kind of transform, its size and its range; X02 and X03 decide the
// transforms themselves.
//
//verif:hook internal/tilegroup inverseDCT
//verif:hook internal/tilegroup inverseADST
//verif:hook internal/tilegroup inverseIdentityTransform
//verif:hook internal/tilegroup inverseWalshHadamardTransform

func mix(in []int, kind, n, r int) []int {
	m := 1 << n
	out := make([]int, m)
	for i := range out {
		out[i] = in[i] + 3*in[m-1-i] - 2*in[m/2] + 64*(kind*10000+n*1000+r*10) + i
	}
	return out
}

func mixInto(t *TileGroup, kind, n, r int) {
	out := mix(t.T[:1<<n], kind, n, r)
	for i := range out {
		t.T[i] = out[i]
	}
}

var xRowKind = []int{0, 0, 1, 1, 0, 1, 1, 1, 1, 2, 2, 0, 2, 1, 2, 1}
var xColKind = []int{0, 1, 0, 1, 1, 0, 1, 1, 1, 2, 0, 2, 1, 2, 1, 2}

// twoD compares the two-dimensional transform of one size.
func twoD(size, typ, depth int, lossless bool, lim int) {
	xFast()
	VerifHook_inverseDCT = func(t *TileGroup, n, r int) { mixInto(t, 0, n, r) }
	VerifHook_inverseADST = func(t *TileGroup, n, r int) { mixInto(t, 1, n, r) }
	VerifHook_inverseIdentityTransform = func(t *TileGroup, n int) { mixInto(t, 2, n, 0) }
	VerifHook_inverseWalshHadamardTransform = func(t *TileGroup, shift int) { mixInto(t, 3, 2, shift) }
	var t TileGroup
	var sh sequenceheader.SequenceHeader
	sh.ColorConfig.BitDepth = depth
	t.PlaneTxType = typ
	t.Lossless = lossless
	lw, lh := xWide[size], xHigh[size]
	w, h := 1<<lw, 1<<lh
	in := make([][]int, h)
	for i := range in {
		in[i] = make([]int, w)
	}
	for i := 0; i < 32; i++ {
		for j := 0; j < 32; j++ {
			c := 0
			if i < h && j < w {
				c = vk.IntAt([]string{"coef8", "coef10", "coef12"}[depth/2-4], i*32+j, -lim, lim-1)
				in[i][j] = c
			}
			t.Dequant[i][j] = c
		}
	}
	t.T[63] = vk.Int("old", -100, 100)
	t.InverseTranform(size, sh)

	rshift := []int{0, 1, 2, 2, 2, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2}[size]
	row, col := xRowKind[typ], xColKind[typ]
	cr := depth + 6
	if cr < 16 {
		cr = 16
	}
	rr := depth + 8
	cshift := 4
	if lossless {
		rshift, cshift, row, col = 0, 0, 3, 3
	}
	half := func(x, n int) int {
		if n == 0 {
			return x
		}
		return (x + 1<<(n-1)) >> n
	}
	rng := func(k, clip, pass int) int {
		switch k {
		case 2:
			return 0
		case 3:
			return 2 - 2*pass
		}
		return clip
	}
	for i := range in {
		if lw-lh == 1 || lh-lw == 1 {
			for j := range in[i] {
				in[i][j] = xround(in[i][j] * 2896)
			}
		}
		in[i] = mix(in[i], row, lw, rng(row, rr, 0))
		for j := range in[i] {
			in[i][j] = xclip(half(in[i][j], rshift), cr)
		}
	}
	for j := 0; j < w; j++ {
		c := make([]int, h)
		for i := range c {
			c[i] = in[i][j]
		}
		c = mix(c, col, lh, rng(col, cr, 1))
		for i := range c {
			vk.Assert(t.Residual[i][j] == half(c[i], cshift), "residual")
		}
	}
	vk.Reach("end")
}

func twoDTypes(size, types int) {
	typ := vk.Int("typ", 0, types-1)
	typ = vk.Split("type", typ, 0, types-1)
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	twoD(size, typ, depth, false, 1<<(depth+7))
}

//verif:bounds 4x4, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_4x4() { twoDTypes(0, 16) }

//verif:bounds 8x8, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_8x8() { twoDTypes(1, 16) }

//verif:bounds 16x16, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_16x16() { twoDTypes(2, 16) }

//verif:bounds 32x32, DCT and identity, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_32x32() { twoD(3, 9*vk.Split("type", vk.Int("typ", 0, 1), 0, 1), 10, false, 1<<17) }

//verif:bounds 64x64, DCT, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_64x64() { twoD(4, 0, 10, false, 1<<17) }

//verif:bounds 4x8, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_4x8() { twoDTypes(5, 16) }

//verif:bounds 8x4, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_8x4() { twoDTypes(6, 16) }

//verif:bounds 8x16, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_8x16() { twoDTypes(7, 16) }

//verif:bounds 16x8, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_16x8() { twoDTypes(8, 16) }

//verif:bounds 16x32, DCT and identity, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_16x32() { twoD(9, 9*vk.Split("type", vk.Int("typ", 0, 1), 0, 1), 10, false, 1<<17) }

//verif:bounds 32x16, DCT and identity, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_32x16() { twoD(10, 9*vk.Split("type", vk.Int("typ", 0, 1), 0, 1), 10, false, 1<<17) }

//verif:bounds 32x64, DCT, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_32x64() { twoD(11, 0, 10, false, 1<<17) }

//verif:bounds 64x32, DCT, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_64x32() { twoD(12, 0, 10, false, 1<<17) }

//verif:bounds 4x16, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_4x16() { twoDTypes(13, 16) }

//verif:bounds 16x4, every type and bit depth, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_16x4() { twoDTypes(14, 16) }

//verif:bounds 8x32, DCT and identity, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_8x32() { twoD(15, 9*vk.Split("type", vk.Int("typ", 0, 1), 0, 1), 10, false, 1<<17) }

//verif:bounds 32x8, DCT and identity, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_32x8() { twoD(16, 9*vk.Split("type", vk.Int("typ", 0, 1), 0, 1), 10, false, 1<<17) }

//verif:bounds 16x64, DCT, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_16x64() { twoD(17, 0, 10, false, 1<<17) }

//verif:bounds 64x16, DCT, 10 bits, every coefficient the dequantizer can produce
//verif:guess 8
func VerifX04_64x16() { twoD(18, 0, 10, false, 1<<17) }
