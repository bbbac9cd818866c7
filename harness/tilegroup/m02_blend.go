package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

//verif:hook internal/util Clip3
//verif:hook internal/util Clip1
//verif:hook internal/util Abs
//verif:hook internal/tilegroup motionVectorScalingProcess
//verif:hook internal/tilegroup blockInterPredictionProcess
//verif:hook internal/tilegroup overlapBlendingProcess

func mHooks() {
	util.VerifHook_Clip3 = func(lo, hi, x int) int {
		m := vk.Ite(x > hi, hi, x)
		return vk.Ite(m < lo, lo, m)
	}
	util.VerifHook_Clip1 = func(x, depth int) int { return util.VerifHook_Clip3(0, 1<<depth-1, x) }
	util.VerifHook_Abs = func(x int) int { return vk.Ite(x < 0, -x, x) }
}

//verif:bounds every length, whole masks
func VerifM02_masks() {
	want := [5][]int{
		{45, 64},
		{39, 50, 59, 64},
		{36, 42, 48, 53, 57, 61, 64, 64},
		{34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64},
		{33, 35, 36, 38, 40, 41, 43, 44, 45, 47, 47, 48, 50, 51, 52, 53, 55, 56, 57, 58, 59, 60, 60, 61, 62, 64, 64, 64, 64, 64, 64, 64},
	}
	k := vk.Split("k", vk.Int("k", 0, 4), 0, 4)
	got := util.GetObmcMask(2 << k)
	vk.Assert(len(got) == 2<<k, "the length of a mask")
	i := vk.Int([5]string{"i2", "i4", "i8", "i16", "i32"}[k], 0, 2<<k-1)
	vk.Assert(got[i] == want[k][i], "a weight of a mask")
	vk.Reach("end")
}

//verif:bounds blocks of 4x8 and 8x4 samples of every plane at two places, arbitrary predictions of 12 bits and weights
func VerifM02_overlap() {
	var t TileGroup
	var s state.State
	plane, col := vk.Split("plane", vk.Int("plane", 0, 2), 0, 2), vk.SplitBool("left", vk.Bool("left"))
	w, h := 4, 8
	if vk.SplitBool("wide", vk.Bool("wide")) {
		w, h = 8, 4
	}
	s.CurrFrame = state.NewFrame(12, 12)
	var pred [PRED_SIZE][PRED_SIZE]int
	var old [12][12]int
	for i := 0; i < 12; i++ {
		for j := 0; j < 12; j++ {
			old[i][j] = vk.IntAt("old", i*12+j, 0, 4095)
			s.CurrFrame[plane][i][j] = old[i][j]
			if i < 8 && j < 8 {
				pred[i][j] = vk.IntAt("pred", i*8+j, 0, 4095)
			}
		}
	}
	mask := make([]int, 8)
	for i := range mask {
		mask[i] = (i*13 + 5) % 65
	}
	x, y := 1+plane, 3
	t.VerifReal_overlapBlendingProcess(plane, x, y, w, h, col, pred, mask, &s)
	for i := 0; i < 12; i++ {
		for j := 0; j < 12; j++ {
			want := old[i][j]
			if i >= y && i < y+h && j >= x && j < x+w {
				m := mask[i-y]
				if col {
					m = mask[j-x]
				}
				want = (m*old[i][j] + (64-m)*pred[i-y][j-x] + 32) >> 6
			}
			vk.Assert(s.CurrFrame[plane][i][j] == want, "a sample of an overlapped block")
		}
	}
	vk.Reach("end")
}

//verif:bounds blocks of 4x8 and 8x4 samples at each depth, arbitrary predictions of 18 bits and a sign
func VerifM02_difference() {
	var t TileGroup
	var sh sequenceheader.SequenceHeader
	mHooks()
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = depth
	t.InterPostRound = 4
	if depth == 12 {
		t.InterPostRound = 2
	}
	w, h := 4, 8
	if vk.SplitBool("wide", vk.Bool("wide")) {
		w, h = 8, 4
	}
	t.MaskType = vk.Split("type", vk.Int("type", 0, 1), 0, 1)
	var p [2][PRED_SIZE][PRED_SIZE]int
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			p[0][i][j] = vk.IntAt("a", i*8+j, -1<<18, 1<<18-1)
			p[1][i][j] = vk.IntAt("b", i*8+j, -1<<18, 1<<18-1)
		}
	}
	t.differenceWeightMaskProcess(p, w, h, sh)
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			d := util.VerifHook_Abs(p[0][i][j] - p[1][i][j])
			n := depth - 8 + t.InterPostRound
			m := 38 + ((d+1<<(n-1))>>n)/16
			m = vk.Ite(m > 64, 64, m)
			if t.MaskType == 1 {
				m = 64 - m
			}
			vk.Assert(t.Mask[i][j] == m, "a weight of a difference mask")
		}
	}
	vk.Reach("end")
}

//verif:bounds every mode, blocks from 4x4 to 32x32 samples with sides in a ratio of at most 4
//verif:loop 1100
func VerifM02_variant() {
	weights := [128]int{
		60, 58, 56, 54, 52, 50, 48, 47, 45, 44, 42, 41, 39, 38, 37, 35, 34, 33, 32, 31,
		30, 29, 28, 27, 26, 25, 24, 23, 22, 22, 21, 20, 19, 19, 18, 18, 17, 16, 16, 15,
		15, 14, 14, 13, 13, 12, 12, 12, 11, 11, 10, 10, 10, 9, 9, 9, 8, 8, 8, 8,
		7, 7, 7, 7, 6, 6, 6, 6, 6, 5, 5, 5, 5, 5, 4, 4, 4, 4, 4, 4,
		4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2,
		2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
		1, 1, 1, 1, 1, 1, 1, 1,
	}
	var t TileGroup
	lw, lh := vk.Split("w", vk.Int("w", 2, 5), 2, 5), vk.Split("h", vk.Int("h", 2, 5), 2, 5)
	vk.Assume(lw-lh <= 2 && lh-lw <= 2)
	w, h := 1<<lw, 1<<lh
	t.InterIntraMode = vk.Split("mode", vk.Int("mode", 0, 3), 0, 3)
	t.intraModeVariantMaskProcess(w, h)
	scale := 128 / h
	if w > h {
		scale = 128 / w
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			at := i
			if t.InterIntraMode == 2 || t.InterIntraMode == 3 && j < i {
				at = j
			}
			want := 32
			if t.InterIntraMode > 0 {
				want = weights[at*scale]
			}
			vk.Assert(t.Mask[i][j] == want, "a weight of an interintra mask")
		}
	}
	vk.Reach("end")
}

//verif:bounds blocks of 2x4 and 4x2 samples at each depth, every subsampling, compound, interintra and wedge interintra, arbitrary predictions and masks
//verif:vc 60
func VerifM02_blend() {
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	mHooks()
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = depth
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	sh.ColorConfig.SubsamplingX = vk.SplitBool("sx", vk.Bool("sx"))
	sh.ColorConfig.SubsamplingY = vk.SplitBool("sy", vk.Bool("sy"))
	vk.Assume(sh.ColorConfig.SubsamplingX || !sh.ColorConfig.SubsamplingY)
	sx, sy := 0, 0
	if plane > 0 {
		sx, sy = vkspec.B(sh.ColorConfig.SubsamplingX), vkspec.B(sh.ColorConfig.SubsamplingY)
	}
	t.InterIntra = vk.Split("interintra", vk.Int("interintra", 0, 1), 0, 1)
	t.WedgeInterIntra = vk.Split("wedge", vk.Int("wedge", 0, 1), 0, 1)
	t.InterPostRound = 4
	if depth == 12 {
		t.InterPostRound = 2
	}
	if t.InterIntra == 1 {
		t.InterPostRound = 0
	}
	w, h := 2, 4
	if vk.SplitBool("wide", vk.Bool("wide")) {
		w, h = 4, 2
	}
	t.Mask = make([][]int, 8)
	for i := range t.Mask {
		t.Mask[i] = make([]int, 8)
		for j := range t.Mask[i] {
			t.Mask[i][j] = (i*29 + j*17 + 3) % 65
		}
	}
	var p [2][PRED_SIZE][PRED_SIZE]int
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			p[0][i][j] = vk.IntAt("a", i*4+j, -1<<18, 1<<18-1)
			p[1][i][j] = vk.IntAt("b", i*4+j, -1<<18, 1<<18-1)
		}
	}
	s.CurrFrame = state.NewFrame(8, 8)
	var old [8][8]int
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			old[i][j] = vk.IntAt([3]string{"old8", "old10", "old12"}[depth/2-4], i*8+j, 0, 1<<depth-1)
			s.CurrFrame[plane][i][j] = old[i][j]
		}
	}
	t.maskBlendProcess(p, plane, 2, 1, w, h, sh, &s)
	clip := func(x int) int { return util.VerifHook_Clip1(x, depth) }
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			i, j := y-1, x-2
			want := old[y][x]
			if i >= 0 && i < h && j >= 0 && j < w {
				m := t.Mask[i][j]
				if sx+sy > 0 && (t.InterIntra == 0 || t.WedgeInterIntra == 1) {
					sum := 0
					for a := 0; a <= sy; a++ {
						for b := 0; b <= sx; b++ {
							sum += t.Mask[i<<sy+a][j<<sx+b]
						}
					}
					m = (sum + (sx + sy)) >> (sx + sy)
				}
				if t.InterIntra == 1 {
					want = (m*old[y][x] + (64-m)*clip(p[0][i][j]) + 32) >> 6
				} else {
					n := 6 + t.InterPostRound
					want = clip((m*p[0][i][j] + (64-m)*p[1][i][j] + 1<<(n-1)) >> n)
				}
			}
			vk.Assert(s.CurrFrame[plane][y][x] == want, "a blended sample")
		}
	}
	vk.Reach("end")
}

//verif:bounds two of the references, every order hint of 5 and 8 bits
func VerifM02_distance() {
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	mHooks()
	bits := 5 + 3*vk.Split("bits", vk.Int("bits", 0, 1), 0, 1)
	sh.EnableOrderHint, sh.OrderHintBits = true, bits
	name := [2]string{"hint5", "hint8"}[bits/8]
	a := vk.Split("ref", vk.Int("ref", 1, 6), 1, 6)
	s.RefFrames[3][2] = [2]int{a, a + 1}
	for i := 0; i < 8; i++ {
		uh.OrderHints[i] = vk.IntAt(name, i, 0, 1<<bits-1)
	}
	uh.OrderHint = vk.IntAt(name, 9, 0, 1<<bits-1)
	t.FwdWeight, t.BckWeight = 99, 99
	t.distanceWeightsProcess(3, 2, &s, uh, sh)
	d := func(r int) int {
		m := 1 << (bits - 1)
		x := uh.OrderHints[r] - uh.OrderHint
		x = x&(m-1) - x&m
		x = vk.Ite(x < 0, -x, x)
		return vk.Ite(x > 31, 31, x)
	}
	d0, d1 := d(a+1), d(a)
	weight := [3][2]int{{2, 3}, {2, 5}, {2, 7}}
	look := [4][2]int{{9, 7}, {11, 5}, {12, 4}, {13, 3}}
	near := d0 <= d1
	k := 3
	for i := 2; i >= 0; i-- {
		hit := vk.Ite(near, vk.Ite(d0*weight[i][1] > d1*weight[i][0], 1, 0), vk.Ite(d0*weight[i][0] < d1*weight[i][1], 1, 0))
		k = vk.Ite(hit == 1, i, k)
	}
	k = vk.Ite(vk.Or(d0 == 0, d1 == 0), 3, k)
	f, b := 0, 0
	for i := 0; i < 4; i++ {
		f = vk.Ite(k == i, vk.Ite(near, look[i][1], look[i][0]), f)
		b = vk.Ite(k == i, vk.Ite(near, look[i][0], look[i][1]), b)
	}
	vk.Assert(t.FwdWeight == f && t.BckWeight == b, "the weights of two references")
	vk.Reach("end")
}

type mPart struct {
	x, y, w, h, row, col, ref, mask int
	left                            bool
}

//verif:bounds blocks of 8x8 to 64x64 samples at one place, each neighbour intra or inter with any reference, of one of three sizes, block borders at frame ends or inside, luma and chroma of 4:4:4, 4:2:2 and 4:2:0
//verif:loop 300
func VerifM02_parts() {
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	sh.ColorConfig.BitDepth = 8
	sh.ColorConfig.SubsamplingX = vk.SplitBool("sx", vk.Bool("sx"))
	sh.ColorConfig.SubsamplingY = vk.SplitBool("sy", vk.Bool("sy"))
	vk.Assume(sh.ColorConfig.SubsamplingX || !sh.ColorConfig.SubsamplingY)
	sx, sy := 0, 0
	if plane > 0 {
		sx, sy = vkspec.B(sh.ColorConfig.SubsamplingX), vkspec.B(sh.ColorConfig.SubsamplingY)
	}
	k := vk.Split("size", vk.Int("size", 0, 5), 0, 5)
	s.MiSize = [6]int{shared.BLOCK_8X8, shared.BLOCK_16X16, shared.BLOCK_32X16, shared.BLOCK_16X32, shared.BLOCK_32X32, shared.BLOCK_64X64}[k]
	w4, h4 := [6]int{2, 4, 8, 4, 8, 16}[k], [6]int{2, 4, 4, 8, 8, 16}[k]
	s.MiRow, s.MiCol = 16, 16
	s.MiRows, s.MiCols = 40, 40
	if vk.SplitBool("end", vk.Bool("end")) {
		s.MiRows, s.MiCols = 16+h4/2, 16+w4/2
	}
	s.AvailU, s.AvailL = vk.SplitBool("above", vk.Bool("above")), vk.SplitBool("left", vk.Bool("left"))
	cand := vk.Split("cand", vk.Int("cand", 0, 2), 0, 2)
	size := [3]int{shared.BLOCK_4X4, shared.BLOCK_16X16, shared.BLOCK_64X64}[cand]
	c4 := [3]int{2, 4, 16}[cand]
	inter := vk.Split("inter", vk.Int("inter", 0, 2), 0, 2)
	for i := 0; i < 7; i++ {
		uh.RefFrameIdx[i] = (i*3 + 2) % 8
	}
	for i := 0; i < 18; i++ {
		for _, at := range [2][2]int{{15, 16 + i}, {16 + i, 15}} {
			ref := (i/c4+at[0])%7 + 1
			if inter == 0 && i/c4%2 == 0 || inter == 1 && i/c4%2 == 1 {
				ref = -vkspec.B(i/c4%4 == 0)
				if ref < 0 {
					ref = 0
				}
			}
			s.RefFrames[at[0]][at[1]] = [2]int{ref, vkspec.B(i%3 == 0)*3 - 1}
			s.MiSizes[at[0]][at[1]] = size
			t.Mvs[at[0]][at[1]][0] = [2]int{at[0] * 3, at[1] * 5}
		}
	}
	bw, bh := w4*4>>sx, h4*4>>sy
	var got []mPart
	var now mPart
	VerifHook_motionVectorScalingProcess = func(t *TileGroup, p, ref, x, y int, mv [2]int, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) (int, int, int, int) {
		vk.Assert(p == plane, "the plane of a part")
		vk.Assert(mv[0]%3 == 0 && mv[1]%5 == 0, "the motion of a part")
		now = mPart{x: x, y: y, ref: ref, row: mv[0] / 3, col: mv[1] / 5}
		return 11, 12, 13, 14
	}
	VerifHook_blockInterPredictionProcess = func(t *TileGroup, p, ref, x, y, dx, dy, w, h, row, col int, s *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
		vk.Assert(p == plane && ref == now.ref && row == now.row && col == now.col, "the reference of a part")
		vk.Assert(x == 11 && y == 12 && dx == 13 && dy == 14, "the position of a part")
		now.w, now.h = w, h
		var pred [PRED_SIZE][PRED_SIZE]int
		pred[0][0], pred[h-1][w-1] = -3, 300
		return pred
	}
	VerifHook_overlapBlendingProcess = func(t *TileGroup, p, x, y, w, h int, left bool, pred [PRED_SIZE][PRED_SIZE]int, mask []int, s *state.State) {
		vk.Assert(p == plane && x == now.x && y == now.y && w == now.w && h == now.h, "the blended part")
		vk.Assert(pred[0][0] == 0 && pred[h-1][w-1] == 255, "the prediction of a part is clipped")
		now.left, now.mask = left, len(mask)
		got = append(got, now)
	}
	t.overlappedMotionCompensationProcess(plane, bw, bh, sh, &s, uh)
	var want []mPart
	lim := func(n4 int) int {
		n := 0
		for 1<<n < n4 {
			n++
		}
		if n > 4 {
			n = 4
		}
		return n
	}
	min := func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}
	// chroma smaller than 8x8 is not overlapped from above
	if s.AvailU && bw >= 8 && bh >= 8 {
		n := 0
		for x := 16; x < min(s.MiCols, 16+w4) && n < lim(w4); x += c4 {
			if ref := s.RefFrames[15][x|1][0]; ref > 0 {
				n++
				want = append(want, mPart{x: x * 4 >> sx, y: 64 >> sy, w: min(bw, c4*4>>sx), h: min(bh/2, 32>>sy), row: 15, col: x | 1, ref: uh.RefFrameIdx[ref-1]})
			}
		}
	}
	if s.AvailL {
		n := 0
		for y := 16; y < min(s.MiRows, 16+h4) && n < lim(h4); y += c4 {
			if ref := s.RefFrames[y|1][15][0]; ref > 0 {
				n++
				want = append(want, mPart{x: 64 >> sx, y: y * 4 >> sy, w: min(bw/2, 32>>sx), h: min(bh, c4*4>>sy), row: y | 1, col: 15, ref: uh.RefFrameIdx[ref-1], left: true})
			}
		}
	}
	vk.Assert(len(got) == len(want), "the number of overlapped parts")
	for i := range want {
		want[i].mask = want[i].h
		if want[i].left {
			want[i].mask = want[i].w
		}
		vk.Assert(got[i] == want[i], "an overlapped part")
	}
	vk.Reach("end")
}
