package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/util Clip3
//verif:hook internal/util Abs
//verif:hook internal/util Round2Signed

//verif:bounds every pair of numbers of 12 bits
func VerifM05_product() {
	a, b := vk.Int("a", -2048, 2047), vk.Int("b", -2048, 2047)
	vk.Assert(util.LsProduct(a, b) == (a*b)>>2+(a+b), "the product of least squares")
	vk.Reach("end")
}

//verif:bounds up to three samples at six sets of places (and eight at one), displaced from the block's motion by any distance up to 300, every motion vector of 13 bits, four block sizes and places
//verif:guess 16
func VerifM05_estimate() {
	t, s := &TileGroup{}, &state.State{}
	util.VerifHook_Clip3 = func(lo, hi, x int) int {
		m := vk.Ite(x > hi, hi, x)
		return vk.Ite(m < lo, lo, m)
	}
	util.VerifHook_Abs = func(x int) int { return vk.Ite(x < 0, -x, x) }
	util.VerifHook_Round2Signed = func(x, n int) int {
		if n == 0 {
			return x
		}
		return vk.Ite(x >= 0, (x+1<<(n-1))>>n, -((-x + 1<<(n-1)) >> n))
	}
	k := vk.Split("k", vk.Int("k", 0, 5), 0, 5)
	places := [6][][2]int{
		{},
		{{-40, 24}},
		{{-72, 0}, {8, -72}},
		{{-136, 56}, {24, -136}, {-136, -136}},
		{{0, 0}, {4, -4}},
		{{-8, 8}, {-8, 8}, {-8, -8}, {8, 8}, {-24, 8}, {8, -24}, {16, -16}, {-40, 40}},
	}[k]
	b := vk.Split("block", vk.Int("block", 0, 3), 0, 3)
	s.MiSize = [4]int{shared.BLOCK_8X8, shared.BLOCK_16X32, shared.BLOCK_32X16, shared.BLOCK_64X64}[b]
	w4, h4 := [4]int{2, 4, 8, 16}[b], [4]int{2, 8, 4, 16}[b]
	s.MiRow, s.MiCol = [4]int{0, 6, 40, 16}[b], [4]int{2, 0, 12, 48}[b]
	midY, midX := s.MiRow*4+h4*2-1, s.MiCol*4+w4*2-1
	my, mx := vk.Int("my", -4096, 4095), vk.Int("mx", -4096, 4095)
	t.Mv[0] = [2]int{my, mx}
	t.LocalValid = b%2 == 0
	t.NumSamples = len(places)
	t.CandList = nil
	var a00, a01, a11, bx0, bx1, by0, by1 int
	ls := func(a, b int) int { return (a*b)>>2 + a + b }
	for i, p := range places {
		ey, ex := 0, 0
		if i < 2 {
			ey, ex = vk.IntAt("ey", i, -300, 300), vk.IntAt("ex", i, -300, 300)
		}
		sy, sx := p[0], p[1]
		dy, dx := sy+ey, sx+ex
		t.CandList = append(t.CandList, []int{midY*8 + sy, midX*8 + sx, midY*8 + my + dy, midX*8 + mx + dx})
		if i < 2 {
			near := vk.And(vk.And(ex < 256, ex > -256), vk.And(ey < 256, ey > -256))
			if !vk.SplitBool("near", near) {
				continue
			}
		}
		a00 += ls(sx, sx) + 8
		a01 += ls(sx, sy) + 4
		a11 += ls(sy, sy) + 8
		bx0 += ls(sx, dx) + 8
		bx1 += ls(sy, dx) + 4
		by0 += ls(sx, dy) + 4
		by1 += ls(sy, dy) + 8
	}
	t.warpEstimationProcess(s)
	det := a00*a11 - a01*a01
	vk.Assert(t.LocalValid == (det != 0), "whether there is an estimate")
	if det == 0 {
		vk.Reach("none")
		return
	}
	n := 0
	for 2<<n <= det {
		n++
	}
	e := det - 1<<n
	f := e << 8 >> n
	if n > 8 {
		f = (e + 1<<(n-9)) >> (n - 8)
	}
	div, shift := Div_Lut[f], n-2
	if shift < 0 {
		div, shift = div<<-shift, 0
	}
	clip := util.VerifHook_Clip3
	est := func(v, mid int) int {
		return clip(mid-8191, mid+8191, util.VerifHook_Round2Signed(v*div, shift))
	}
	p2 := est(a11*bx0-a01*bx1, 65536)
	p3 := est(a00*bx1-a01*bx0, 0)
	p4 := est(a11*by0-a01*by1, 0)
	p5 := est(a00*by1-a01*by0, 65536)
	vk.Assert(t.LocalWarpParams[2] == p2, "the horizontal scale")
	vk.Assert(t.LocalWarpParams[3] == p3, "the horizontal cross term")
	vk.Assert(t.LocalWarpParams[4] == p4, "the vertical cross term")
	vk.Assert(t.LocalWarpParams[5] == p5, "the vertical scale")
	vk.Assert(t.LocalWarpParams[0] == clip(-1<<23, 1<<23-1, mx*8192-(midX*(p2-65536)+midY*p3)), "the horizontal offset")
	vk.Assert(t.LocalWarpParams[1] == clip(-1<<23, 1<<23-1, my*8192-(midX*p4+midY*(p5-65536))), "the vertical offset")
	vk.Reach("end")
}
