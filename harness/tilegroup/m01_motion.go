package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

//verif:hook internal/util Clip3

//verif:bounds single and compound prediction at 8, 10 and 12 bits
func VerifM01_rounding() {
	var t TileGroup
	var sh sequenceheader.SequenceHeader
	t.InterRound0, t.InterRound1, t.InterPostRound = vk.Int("old0", 0, 20), vk.Int("old1", 0, 20), vk.Int("old2", 0, 20)
	sh.ColorConfig.BitDepth = 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	compound := vk.Bool("compound")
	t.roundVariablesDerivationProcess(compound, sh)
	r0 := 3
	if sh.ColorConfig.BitDepth == 12 {
		r0 = 5
	}
	r1 := vk.Ite(compound, 7, 14-r0)
	vk.Assert(t.InterRound0 == r0, "the first rounding")
	vk.Assert(t.InterRound1 == r1, "the second rounding")
	vk.Assert(t.InterPostRound == 14-r0-r1, "the rounding after blending")
	vk.Reach("end")
}

func mRound(x, n int) int {
	return vk.Ite(x >= 0, (x+1<<(n-1))>>n, -((-x + 1<<(n-1)) >> n))
}

//verif:bounds frames of 5 widths and heights, references of the same size or scaled by 2, 1/16 or ratios between, the current frame; every position up to 4096 samples, motion vectors of 15 bits, 4:4:4, 4:2:2 and 4:2:0
func VerifM01_scaling() {
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	sizes := [5]int{16, 17, 64, 255, 250}
	size := func(k, w int) int {
		return [5]int{w, 2 * w, (w + 15) / 16, w + 1, w * 3 / 2}[k]
	}
	i, k := vk.Split("size", vk.Int("size", 0, 4), 0, 4), vk.Split("scale", vk.Int("scale", 0, 4), 0, 4)
	uh.FrameWidth, uh.FrameHeight = sizes[i], sizes[(i*2+1)%5]
	uh.UpscaledWidth = uh.FrameWidth
	rw, rh := size(k, uh.FrameWidth), size((k+2)%5, uh.FrameHeight)
	ref := 3
	if vk.SplitBool("copy", vk.Bool("copy")) {
		ref = -1
		rw, rh = uh.FrameWidth, uh.FrameHeight
	} else {
		s.RefUpscaledWidth[3], s.RefFrameWidth[3], s.RefFrameHeight[3] = rw, rw/2+1, rh
	}
	plane := vk.Split("plane", vk.Int("plane", 0, 2), 0, 2)
	sh.ColorConfig.SubsamplingX = vk.SplitBool("sx", vk.Bool("sx"))
	sh.ColorConfig.SubsamplingY = vk.SplitBool("sy", vk.Bool("sy"))
	vk.Assume(sh.ColorConfig.SubsamplingX || !sh.ColorConfig.SubsamplingY)
	sx, sy := 0, 0
	if plane > 0 {
		sx, sy = vkspec.B(sh.ColorConfig.SubsamplingX), vkspec.B(sh.ColorConfig.SubsamplingY)
	}
	x, y := vk.Int("x", 0, 4095), vk.Int("y", 0, 4095)
	mv := [2]int{vk.Int("mvy", -16384, 16383), vk.Int("mvx", -16384, 16383)}
	one := func(pos, mv, sub, rs, fs int) (int, int) {
		scale := (rs<<14 + fs/2) / fs
		at := (pos<<4+(2*mv)>>sub+8)*scale - 8<<14
		return mRound(at, 8) + 32, mRound(scale, 4)
	}
	x0, y0, dx, dy := t.motionVectorScalingProcess(plane, ref, x, y, mv, &s, uh, sh)
	wx, wdx := one(x, mv[1], sx, rw, uh.FrameWidth)
	wy, wdy := one(y, mv[0], sy, rh, uh.FrameHeight)
	vk.Assert(x0 == wx && dx == wdx, "the horizontal position and step")
	vk.Assert(y0 == wy && dy == wdy, "the vertical position and step")
	vk.Reach("end")
}

//verif:bounds blocks of 4x4, 8x4 and 4x8 samples from references of up to 8x8 samples in each plane or the current frame, 4:4:4, 4:2:2 and 4:2:0, every position up to 20 samples outside, every fraction, unscaled and two scales, every kind of filter, each pair of roundings, arbitrary 12-bit samples
//verif:guess 8
//verif:loop 400
func VerifM01_block() {
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	k := vk.Split("k", vk.Int("k", 0, 15), 0, 15)
	round := [4][2]int{{3, 11}, {3, 7}, {5, 9}, {5, 7}}[k/4]
	t.InterRound0, t.InterRound1 = round[0], round[1]
	size := vk.Split("size", vk.Int("size", 0, 2), 0, 2)
	w, h := [3]int{4, 8, 4}[size], [3]int{4, 4, 8}[size]
	step := vk.Split("step", vk.Int("step", 0, 2), 0, 2)
	dx, dy := [3]int{1024, 2048, 700}[step], [3]int{1024, 515, 2048}[step]
	filter := [2]int{k % 4, (k + k/4) % 4}
	t.InterpFilters[1][2] = filter
	plane := (k + size) % 3
	sub := vk.Split("sub", vk.Int("sub", 0, 2), 0, 2)
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = sub > 0, sub > 1
	sx, sy := vkspec.B(sub > 0 && plane > 0), vkspec.B(sub > 1 && plane > 0)
	f := state.NewFrame(8, 8)
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			f[plane][i][j] = vk.IntAt("sample", i*8+j, 0, 4095)
		}
	}
	ref := 5
	rw, rh := vk.Int([2]string{"width", "width2"}[sx], 1, 8<<sx), vk.Int([2]string{"height", "height2"}[sy], 1, 8<<sy)
	if step == 0 && size == 0 {
		ref = -1
		s.CurrFrame = f
		s.MiCols, s.MiRows = vk.Split("cols", vk.Int("cols", 1, 2), 1, 2), 1
		s.MiRows <<= sy
		s.MiCols <<= sx
		rw, rh = s.MiCols*4, s.MiRows*4
	} else {
		s.FrameStore[5] = f
		s.RefUpscaledWidth[5], s.RefFrameHeight[5] = rw, rh
	}
	x := vk.Int("x", -20, 20)*1024 + k*64 + 32
	y := vk.Int("y", -20, 20)*1024 + (k*7+3)%16*64 + 5
	util.VerifHook_Clip3 = func(lo, hi, x int) int {
		m := vk.Ite(x > hi, hi, x)
		return vk.Ite(m < lo, lo, m)
	}
	got := t.blockInterPredictionProcess(plane, ref, x, y, dx, dy, w, h, 1, 2, &s, sh)
	lastX, lastY := (rw+sx)>>sx-1, (rh+sy)>>sy-1
	kind := func(f, n int) int {
		if n > 4 || f == 3 {
			return f
		}
		return 4 + vkspec.B(f == 1)
	}
	clip := func(x, hi int) int { return util.VerifHook_Clip3(0, hi, x) }
	var mid [32][8]int
	for i := 0; i < ((h-1)*dy+1023)>>10+8; i++ {
		for j := 0; j < w; j++ {
			p := x + dx*j
			sum := 0
			for n := 0; n < 8; n++ {
				sum += Subpel_Filters[kind(filter[1], w)][p>>6&15][n] * f[plane][clip(y>>10+i-3, lastY)][clip(p>>10+n-3, lastX)]
			}
			mid[i][j] = (sum + 1<<(round[0]-1)) >> round[0]
		}
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			p := y&1023 + dy*i
			sum := 0
			for n := 0; n < 8; n++ {
				sum += Subpel_Filters[kind(filter[0], h)][p>>6&15][n] * mid[p>>10+n][j]
			}
			vk.Assert(got[i][j] == (sum+1<<(round[1]-1))>>round[1], "a sample of an inter prediction")
		}
	}
	vk.Reach("end")
}

//verif:bounds blocks of 128 samples one way at the largest step (extent of memory only)
//verif:loop 1100
func VerifM01_large() {
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	t.InterRound0, t.InterRound1 = 3, 11
	s.FrameStore[0] = state.NewFrame(1, 1)
	s.RefUpscaledWidth[0], s.RefFrameHeight[0] = 1, 1
	s.FrameStore[0][0][0][0] = vk.Int("sample", 0, 255)
	w, h := 128, 2
	if vk.SplitBool("high", vk.Bool("high")) {
		w, h = 2, 128
	}
	y := vk.Split("y", vk.Int("y", 0, 1), 0, 1) * 1023
	got := t.blockInterPredictionProcess(0, 0, 77, y, 2048, 2048, w, h, 0, 0, &s, sh)
	vk.Assert(got[h-1][w-1] == s.FrameStore[0][0][0][0], "the last sample")
	vk.Reach("end")
}

//verif:bounds whole tables
func VerifM01_filters() {
	half := [6][8][8]int{
		{{0, 2, -6, 126, 8, -2}, {0, 2, -10, 122, 18, -4}, {0, 2, -12, 116, 28, -8, 2}, {0, 2, -14, 110, 38, -10, 2}, {0, 2, -14, 102, 48, -12, 2}, {0, 2, -16, 94, 58, -12, 2}, {0, 2, -14, 84, 66, -12, 2}, {0, 2, -14, 76, 76, -14, 2}},
		{{0, 2, 28, 62, 34, 2}, {0, 0, 26, 62, 36, 4}, {0, 0, 22, 62, 40, 4}, {0, 0, 20, 60, 42, 6}, {0, 0, 18, 58, 44, 8}, {0, 0, 16, 56, 46, 10}, {0, -2, 16, 54, 48, 12}, {0, -2, 14, 52, 52, 14, -2}},
		{{-2, 2, -6, 126, 8, -2, 2}, {-2, 6, -12, 124, 16, -6, 4, -2}, {-2, 8, -18, 120, 26, -10, 6, -2}, {-4, 10, -22, 116, 38, -14, 6, -2}, {-4, 10, -22, 108, 48, -18, 8, -2}, {-4, 10, -24, 100, 60, -20, 8, -2}, {-4, 10, -24, 90, 70, -22, 10, -2}, {-4, 12, -24, 80, 80, -24, 12, -4}},
		{{0, 0, 0, 120, 8}, {0, 0, 0, 112, 16}, {0, 0, 0, 104, 24}, {0, 0, 0, 96, 32}, {0, 0, 0, 88, 40}, {0, 0, 0, 80, 48}, {0, 0, 0, 72, 56}, {0, 0, 0, 64, 64}},
		{{0, 0, -4, 126, 8, -2}, {0, 0, -8, 122, 18, -4}, {0, 0, -10, 116, 28, -6}, {0, 0, -12, 110, 38, -8}, {0, 0, -12, 102, 48, -10}, {0, 0, -14, 94, 58, -10}, {0, 0, -12, 84, 66, -10}, {0, 0, -12, 76, 76, -12}},
		{{0, 0, 30, 62, 34, 2}, {0, 0, 26, 62, 36, 4}, {0, 0, 22, 62, 40, 4}, {0, 0, 20, 60, 42, 6}, {0, 0, 18, 58, 44, 8}, {0, 0, 16, 56, 46, 10}, {0, 0, 14, 54, 48, 12}, {0, 0, 12, 52, 52, 12}},
	}
	f, p := vk.Split("filter", vk.Int("filter", 0, 5), 0, 5), vk.Int("fraction", 0, 15)
	for n := 0; n < 8; n++ {
		want := 0
		for a := 0; a < 6; a++ {
			for b := 0; b < 16; b++ {
				v := vkspec.B(n == 3) * 128
				if b > 8 {
					v = half[a][15-b][7-n]
				} else if b > 0 {
					v = half[a][b-1][n]
				}
				want = vk.Ite(vk.And(f == a, p == b), v, want)
			}
		}
		vk.Assert(Subpel_Filters[f][p][n] == want, "a tap of an interpolation filter")
	}
	vk.Reach("end")
}
