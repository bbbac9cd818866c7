package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

//verif:hook internal/util Clip3
//verif:hook internal/util Abs
//verif:hook internal/util Round2Signed
//verif:hook internal/tilegroup setupShearProcess

func wHooks() {
	util.VerifHook_Clip3 = func(lo, hi, x int) int {
		m := vk.Ite(x > hi, hi, x)
		return vk.Ite(m < lo, lo, m)
	}
	util.VerifHook_Abs = func(x int) int { return vk.Ite(x < 0, -x, x) }
	util.VerifHook_Round2Signed = func(x, n int) int {
		if n == 0 {
			return x
		}
		return vk.Ite(x >= 0, (x+1<<(n-1))>>n, -((-x + 1<<(n-1)) >> n))
	}
}

//verif:bounds whole tables
//verif:loop 300
func VerifM04_tables() {
	i := vk.Int("i", 0, 256)
	vk.Assert(Div_Lut[i] == (1<<23/(256+i)+1)/2, "a reciprocal")
	k := vk.Split("k", vk.Int("k", 0, 192), 0, 192)
	sum := 0
	for _, v := range Warped_Filters[k] {
		sum += v
	}
	vk.Assert(len(Div_Lut) == 257 && len(Warped_Filters) == 193 && len(Warped_Filters[k]) == 8 && sum == 128, "the taps of a warp filter")
	vk.Reach("end")
}

//verif:bounds divisors of either sign of up to 40 bits
func VerifM04_divisor() {
	var t TileGroup
	n := vk.Split("n", vk.Int("n", 0, 39), 0, 39)
	d := 1<<n + vk.Int("low", 0, 1<<40-1)
	vk.Assume(d < 2<<n)
	neg := vk.SplitBool("negative", vk.Bool("negative"))
	v := d
	if neg {
		v = -d
	}
	shift, factor := t.resolveDivisorProcess(v)
	f := (d - 1<<n) << 8 >> n
	if n > 8 {
		f = (d - 1<<n + 1<<(n-9)) >> (n - 8)
	}
	vk.Assert(f >= 0 && f <= 256, "the index of a reciprocal")
	want := Div_Lut[f]
	if neg {
		want = -want
	}
	vk.Assert(shift == n+14 && factor == want, "a reciprocal and its scale")
	vk.Reach("end")
}

//verif:bounds five scales with five values of one cross term, every value of the other cross term and of the second scale up to 14 bits from their neutral values
//verif:guess 16
func VerifM04_shear() {
	var t TileGroup
	wHooks()
	k, l := vk.Split("k", vk.Int("k", 0, 4), 0, 4), vk.Split("l", vk.Int("l", 0, 4), 0, 4)
	var p [6]int
	p[2] = [5]int{65536, 57345, 73727, 60000, 66001}[k]
	c := [5]int{-8191, -3000, 0, 77, 8191}[l]
	x := vk.Int("cross", -16384, 16383)
	p[3], p[4] = c, x
	if vk.SplitBool("swap", vk.Bool("swap")) {
		p[3], p[4] = x, c
	}
	p[5] = 65536 + vk.Int("scale", -16384, 16383)
	ok, a, b, g, d := t.VerifReal_setupShearProcess(p)
	n := 15
	if p[2] >= 65536 {
		n = 16
	}
	f := (p[2] - 1<<n + 1<<(n-9)) >> (n - 8)
	div := Div_Lut[f]
	r := util.VerifHook_Round2Signed
	clip := func(x int) int { return util.VerifHook_Clip3(-32768, 32767, x) }
	red := func(x int) int { return r(clip(x), 6) << 6 }
	abs := util.VerifHook_Abs
	wa, wb := red(p[2]-65536), red(p[3])
	wg := red(r(p[4]*65536*div, n+14))
	wd := red(p[5] - r(p[3]*p[4]*div, n+14) - 65536)
	vk.Assert(a == wa && b == wb, "the horizontal shear")
	vk.Assert(g == wg && d == wd, "the vertical shear")
	vk.Assert(ok == vk.And(4*abs(wa)+7*abs(wb) < 65536, 4*abs(wg)+4*abs(wd) < 65536), "the validity of a warp")
	vk.Reach("end")
}

//verif:bounds six warps each global or local, blocks of 8x8 and 16x16 samples at two places of luma or chroma of 4:4:4, 4:2:2 and 4:2:0, arbitrary samples of 12 bits of references of up to 8x8 samples, each pair of roundings
//verif:guess 8
//verif:loop 300
func VerifM04_block() {
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	wHooks()
	k := vk.Split("k", vk.Int("k", 0, 5), 0, 5)
	warp := [6][6]int{
		{0, 0, 65536, 0, 0, 65536},
		{-300000, 123456, 65536 + 500, -700, 900, 65536 - 300},
		{1 << 20, -1 << 19, 65536 - 4000, 2000, -1500, 65536 + 3000},
		{77777, -88888, 65536 + 7000, 300, 200, 65536 - 7000},
		{-1 << 21, 1 << 21, 65536, -3000, 3000, 65536},
		{12345, 54321, 65536 + 1, 64, -64, 65536 + 65},
	}[k]
	shear := [6][4]int{{}, {512, -704, 896, -320}, {-4032, 1984, -1472, 3072}, {6976, 320, 192, -6976}, {0, -3008, 3008, 128}, {0, 64, -64, 64}}[k]
	list := vk.Split("list", vk.Int("list", 0, 1), 0, 1)
	use := vk.Split("use", vk.Int("use", 1, 2), 1, 2)
	s.RefFrame = [2]int{2, 6}
	for i := 0; i < 7; i++ {
		uh.RefFrameIdx[i] = (i*3 + 1) % 8
	}
	other := [6]int{5, 5, 65536, 5, 5, 65536}
	for i := 0; i < 8; i++ {
		uh.GmParams[i] = other
	}
	if use == 1 {
		t.LocalWarpParams = warp
	} else {
		t.LocalWarpParams = other
		uh.GmParams[s.RefFrame[list]] = warp
	}
	VerifHook_setupShearProcess = func(t *TileGroup, p [6]int) (bool, int, int, int, int) {
		vk.Assert(p == warp, "the parameters of a warp")
		return true, shear[0], shear[1], shear[2], shear[3]
	}
	round := [4][2]int{{3, 11}, {3, 7}, {5, 9}, {5, 7}}[(k+use+list)%4]
	t.InterRound0, t.InterRound1 = round[0], round[1]
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	sub := (k + use) % 3
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = sub > 0, sub > 1
	sx, sy := 0, 0
	if plane > 0 {
		sx, sy = vkspec.B(sub > 0), vkspec.B(sub > 1)
	}
	part := vk.Split("part", vk.Int("part", 0, 2), 0, 2)
	w, h, i8, j8 := 8, 8, 0, 0
	if part > 0 {
		w, h, i8, j8 = 16, 16, part-1, 2-part
	}
	x, y := 0, 8
	if k%2 == 1 {
		x, y = 8, 0
	}
	f := state.NewFrame(8, 8)
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			f[plane][i][j] = vk.IntAt("sample", i*8+j, 0, 4095)
		}
	}
	ref := uh.RefFrameIdx[s.RefFrame[list]-1]
	s.FrameStore[ref] = f
	rw, rh := (7+list)<<sx, (8-use)<<sy
	s.RefUpscaledWidth[ref], s.RefFrameHeight[ref] = rw, rh
	var got [PRED_SIZE][PRED_SIZE]int
	got[0][0], got[15][15] = 4242, 4343
	t.blockWarpProcess(&got, use, plane, list, x, y, i8, j8, w, h, &s, uh, sh)
	cx, cy := (x+j8*8+4)<<sx, (y+i8*8+4)<<sy
	px := (warp[2]*cx + warp[3]*cy + warp[0]) >> sx
	py := (warp[4]*cx + warp[5]*cy + warp[1]) >> sy
	clip := func(x, hi int) int {
		if x < 0 {
			return 0
		}
		if x > hi {
			return hi
		}
		return x
	}
	var mid [15][8]int
	for i := -7; i < 8; i++ {
		for j := -4; j < 4; j++ {
			at := (px&65535+shear[0]*j+shear[1]*i+512)>>10 + 64
			sum := 0
			for n := 0; n < 8; n++ {
				sum += Warped_Filters[at][n] * f[plane][clip(py>>16+i, (rh+sy)>>sy-1)][clip(px>>16+j-3+n, (rw+sx)>>sx-1)]
			}
			mid[i+7][j+4] = (sum + 1<<(round[0]-1)) >> round[0]
		}
	}
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			want := vkspec.B(i+j == 0)*4242 + vkspec.B(i+j == 30)*4343
			if a, b := i-i8*8-4, j-j8*8-4; a >= -4 && a < 4 && b >= -4 && b < 4 {
				at := (py&65535+shear[2]*b+shear[3]*a+512)>>10 + 64
				sum := 0
				for n := 0; n < 8; n++ {
					sum += Warped_Filters[at][n] * mid[a+n+4][b+4]
				}
				want = (sum + 1<<(round[1]-1)) >> round[1]
			}
			vk.Assert(got[i][j] == want, "a sample of a warped block")
		}
	}
	vk.Reach("end")
}
