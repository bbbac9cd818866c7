package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/tilegroup InverseTranform

// xRun reconstructs one block; res fills in the residual.
func xRun(t *TileGroup, plane, x, y, size int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State, res func()) {
	calls := 0
	VerifHook_InverseTranform = func(t *TileGroup, txSz int, sh sequenceheader.SequenceHeader) {
		calls++
		vk.Assert(txSz == size, "size of the transform")
		if res != nil {
			res()
		}
	}
	t.reconstruct(plane, x, y, size, sh, uh, s)
	vk.Assert(calls == 1, "one inverse transform")
}

func xFrame(s *state.State, w, h int) {
	for p := range s.CurrFrame {
		s.CurrFrame[p] = make([][]int, h)
		for i := range s.CurrFrame[p] {
			s.CurrFrame[p][i] = make([]int, w)
		}
	}
}

// xDenom halves the step for transforms of more than 256 and again for more
// than 1024 values.
func xDenom(size int) int {
	n := 1 << (xWide[size] + xHigh[size])
	d := 1
	if n > 256 {
		d = 2
	}
	if n > 1024 {
		d = 4
	}
	return d
}

func xDequant(q int, neg bool, step, denom, depth int) int {
	v, lim := q*step%(1<<24)/denom, 1<<(depth+7)
	if neg {
		return vk.Ite(lim < v, -lim, -v)
	}
	return vk.Ite(lim-1 < v, lim-1, v)
}

func xCoded(w, h int) (int, int) {
	if w > 32 {
		w = 32
	}
	if h > 32 {
		h = 32
	}
	return w, h
}

//verif:bounds every transform size and bit depth, one of the base indexes 0, 97 and 255, coefficients of 20 bits at the first, second, a middle and the last position
//verif:guess 24
//verif:time 300
//verif:loop 5000
func VerifX05_scale() {
	size := vk.Split("s", vk.Int("size", 0, 18), 0, 18)
	depth := 8 + 2*vk.Split("d", vk.Int("depth", 0, 2), 0, 2)
	base := []int{0, 97, 255}[(size+depth/2)%3]
	if size == 0 || size == 11 {
		base = []int{0, 97, 255}[vk.Split("b", vk.Int("base", 0, 2), 0, 2)]
	}
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	sh.ColorConfig.BitDepth = depth
	uh.BaseQIdx = base
	xFrame(&s, 64, 64)
	w, h := xCoded(1<<xWide[size], 1<<xHigh[size])
	at := []int{0, 1, w*h/2 + w - 1, w*h - 1}
	neg := vk.SplitBool("neg", vk.Bool("negative"))
	mag := vk.Ints("coef", 4, 1, 1<<20)
	for i, p := range at {
		t.Quant[p] = mag[i]
		if neg {
			t.Quant[p] = -mag[i]
		}
	}
	for i := 0; i < 64; i++ {
		t.Dequant[i%32][31-i/2] = 7
	}
	xRun(&t, 0, 0, 0, size, sh, uh, &s, nil)
	for i, p := range at {
		step := Ac_Qlookup[depth/2-4][base]
		if p == 0 {
			step = Dc_Qlookup[depth/2-4][base]
		}
		vk.Assert(t.Dequant[p/w][p%w] == xDequant(mag[i], neg, step, xDenom(size), depth), "dequantized coefficient")
		t.Dequant[p/w][p%w] = 0
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			vk.Assert(t.Dequant[i][j] == 0, "zero coefficient")
		}
	}
	vk.Reach("end")
}

//verif:bounds every base index, delta, segment feature, block index, plane and bit depth; segments 0, 3 and 7
func VerifX05_index() {
	xFast()
	plane := vk.Split("p", vk.Int("plane", 0, 2), 0, 2)
	depth := 8 + 2*vk.Split("d", vk.Int("depth", 0, 2), 0, 2)
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	sh.ColorConfig.BitDepth = depth
	uh.BaseQIdx = vk.Int("base", 0, 255)
	s.CurrentQIndex = vk.Int("current", 0, 255)
	uh.DeltaQPresent = vk.SplitBool("deltaq", vk.Bool("deltaq"))
	uh.SegmentationEnabled = vk.SplitBool("segmentation", vk.Bool("segmentation"))
	t.SegmentId = []int{0, 3, 7}[vk.Split("s", vk.Int("segment", 0, 2), 0, 2)]
	active := vk.Split("active", vk.Int("active", 0, 1), 0, 1)
	data := vk.Int("data", -255, 255)
	for i := range s.FeatureData {
		s.FeatureEnabled[i][shared.SEG_LVL_ALT_Q] = 1
		s.FeatureData[i][shared.SEG_LVL_ALT_Q] = 77
	}
	s.FeatureEnabled[t.SegmentId][shared.SEG_LVL_ALT_Q] = active
	s.FeatureData[t.SegmentId][shared.SEG_LVL_ALT_Q] = data
	var d [5]int
	for i := range d {
		d[i] = vk.IntAt("delta", i, -64, 63)
	}
	uh.DeltaQYDc, uh.DeltaQUDc, uh.DeltaQUAc, uh.DeltaQVDc, uh.DeltaQVAc = d[0], d[1], d[2], d[3], d[4]
	xFrame(&s, 4, 4)
	t.Quant[0], t.Quant[7] = 1, 1
	xRun(&t, plane, 0, 0, TX_4X4, sh, uh, &s, nil)

	q := vk.Ite(uh.DeltaQPresent, s.CurrentQIndex, uh.BaseQIdx)
	lim := func(x int) int { return vk.Ite(x < 0, 0, vk.Ite(255 < x, 255, x)) }
	if uh.SegmentationEnabled && active == 1 {
		q = lim(q + data)
	}
	dc := lim(q + []int{d[0], d[1], d[3]}[plane])
	ac := lim(q + []int{0, d[2], d[4]}[plane])
	vk.Assert(t.Dequant[0][0] == Dc_Qlookup[depth/2-4][dc], "step of the first coefficient")
	vk.Assert(t.Dequant[1][3] == Ac_Qlookup[depth/2-4][ac], "step of the other coefficients")
	vk.Reach("end")
}

// xMatrix lists where the weights of a size start.
func xMatrix(size int) int {
	n, start := 0, map[int]int{}
	for _, s := range []int{0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16} {
		start[s] = n
		n += 1 << (xWide[s] + xHigh[s])
	}
	switch size {
	case 4, 11, 12:
		size = 3
	case 17:
		size = 9
	case 18:
		size = 10
	}
	return start[size]
}

//verif:bounds every transform size, plane, type and level; every coefficient position with one value
//verif:time 300
//verif:loop 5000
func VerifX05_matrix() {
	size := vk.Split("s", vk.Int("size", 0, 18), 0, 18)
	plane := vk.Split("p", vk.Int("plane", 0, 2), 0, 2)
	level := []int{0, 6, 14, 15}[vk.Split("l", vk.Int("level", 0, 3), 0, 3)]
	typ := []int{0, 8, 9, 15}[vk.Split("t", vk.Int("type", 0, 3), 0, 3)]
	using := vk.SplitBool("using", vk.Bool("using"))
	if size > 1 && size != 17 && size != 6 {
		vk.Assume(plane == size%3 && typ == 0 && using && level == []int{0, 6, 14}[size%3])
	} else {
		vk.Assume(level == 6 || typ == 8 && using && plane < 2)
	}
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	sh.ColorConfig.BitDepth = 12
	t.PlaneTxType = typ
	t.SegmentId = 3
	uh.BaseQIdx = 60
	uh.UsingQMatrix = using
	for p := range uh.SegQMLevel {
		for i := range uh.SegQMLevel[p] {
			uh.SegQMLevel[p][i] = 2
		}
	}
	uh.SegQMLevel[plane][3] = level
	xFrame(&s, 64, 64)
	w, h := xCoded(1<<xWide[size], 1<<xHigh[size])
	for i := 0; i < w*h; i++ {
		t.Quant[i] = 4
	}
	xRun(&t, plane, 0, 0, size, sh, uh, &s, nil)
	start := xMatrix(size)
	chroma := plane
	if plane == 2 {
		chroma = 1
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			step := Ac_Qlookup[2][60]
			if i+j == 0 {
				step = Dc_Qlookup[2][60]
			}
			if using && level < 15 && typ < 9 {
				step = (step*Quantizer_Matrix[level][chroma][start+i*w+j] + 16) >> 5
			}
			vk.Assert(t.Dequant[i][j] == 4*step/xDenom(size), "weighted coefficient")
		}
	}
	vk.Reach("end")
}

// xAdd checks how the residual reaches the frame.
func xAdd(size int) {
	depth := 8 + 2*vk.Split("d", vk.Int("depth", 0, 2), 0, 2)
	typ := vk.Split("t", vk.Int("type", 0, 15), 0, 15)
	plane := vk.Split("p", vk.Int("plane", 0, 2), 0, 2)
	if plane > 0 && typ != 8 {
		plane = 0
	}
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	sh.ColorConfig.BitDepth = depth
	t.PlaneTxType = typ
	w, h := 1<<xWide[size], 1<<xHigh[size]
	const x, y = 4, 8
	xFrame(&s, w+8, h+16)
	max := 1<<depth - 1
	name := []string{"sample8", "sample10", "sample12"}[depth/2-4]
	old := make([][]int, h+16)
	for i := range old {
		old[i] = make([]int, w+8)
		for j := range old[i] {
			if i < y || i >= y+h || j < x || j >= x+w {
				old[i][j] = 5
			} else {
				old[i][j] = vk.IntAt(name, i*(w+8)+j, 0, max)
			}
			s.CurrFrame[plane][i][j] = old[i][j]
		}
	}
	res := make([][]int, h)
	xRun(&t, plane, x, y, size, sh, uh, &s, func() {
		for i := range res {
			res[i] = make([]int, w)
			for j := range res[i] {
				res[i][j] = vk.IntAt("res", i*w+j, -(1 << 17), 1<<17)
				t.Residual[i][j] = res[i][j]
			}
		}
	})
	down := typ == 4 || typ == 6 || typ == 8 || typ == 14
	left := typ >= 5 && typ <= 7 || typ == 15
	for i := range old {
		for j := range old[i] {
			want := old[i][j]
			if i >= y && i < y+h && j >= x && j < x+w {
				r, c := i-y, j-x
				if down {
					r = h - 1 - r
				}
				if left {
					c = w - 1 - c
				}
				v := want + res[r][c]
				want = vk.Ite(v < 0, 0, vk.Ite(max < v, max, v))
			}
			vk.Assert(s.CurrFrame[plane][i][j] == want, "reconstructed sample")
		}
	}
	vk.Reach("end")
}

//verif:bounds 4x4 and every type, bit depth, plane, sample and residual of 17 bits
//verif:guess 8
func VerifX05_add4x4() { xFast(); xAdd(0) }

//verif:bounds 8x4 and every type, bit depth, plane, sample and residual of 17 bits
//verif:guess 8
func VerifX05_add8x4() { xFast(); xAdd(6) }

//verif:bounds 4x16 and every type, bit depth, plane, sample and residual of 17 bits
//verif:guess 8
func VerifX05_add4x16() { xFast(); xAdd(13) }

//verif:bounds both quantizer tables and every weight matrix: order, symmetry and digests taken from this code
//verif:loop 5000
func VerifX05_tables() {
	sum := 0
	add := func(x int) { sum = (sum*31 + x) % 1000000007 }
	for d := 0; d < 3; d++ {
		for i := 0; i < 256; i++ {
			dc, ac := Dc_Qlookup[d][i], Ac_Qlookup[d][i]
			vk.Assert(dc <= ac && dc >= 4, "first coefficients are finer")
			if i > 0 {
				vk.Assert(dc >= Dc_Qlookup[d][i-1] && ac > Ac_Qlookup[d][i-1], "steps grow")
			}
			add(dc)
			add(ac)
		}
	}
	vk.Assert(sum == 76849059, "quantizer tables")
	vk.Reach("end")
}

//verif:bounds every weight matrix: range, symmetry and a digest taken from this code
//verif:loop 5000
func VerifX05_weights() {
	sum := 0
	for l := range Quantizer_Matrix {
		for c := range Quantizer_Matrix[l] {
			m := Quantizer_Matrix[l][c]
			for _, s := range []int{0, 1, 2, 3} {
				o, n := xMatrix(s), 1<<xWide[s]
				for i := 0; i < n; i++ {
					for j := 0; j < i; j++ {
						vk.Assert(m[o+i*n+j] == m[o+j*n+i], "square weights are symmetric")
					}
				}
			}
			for _, s := range []int{5, 7, 9, 13, 15} {
				a, b, w, h := xMatrix(s), xMatrix(s+1), 1<<xWide[s], 1<<xHigh[s]
				for i := 0; i < h; i++ {
					for j := 0; j < w; j++ {
						vk.Assert(m[a+i*w+j] == m[b+j*h+i], "oblong weights are transposed")
					}
				}
			}
			for _, x := range m {
				vk.Assert(x >= 25 && x <= 255, "range of the weights")
				sum = (sum*31 + x) % 1000000007
			}
		}
	}
	vk.Assert(sum == 51439490, "weight matrices")
	vk.Reach("end")
}
