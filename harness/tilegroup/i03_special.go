package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/util Round2Signed

func iRound(x, n int) int {
	h := 1 << (n - 1)
	return vk.Ite(x < 0, -((h - x) >> n), (x+h)>>n)
}

//verif:bounds every value below 2^40, 1 to 16 bits
func VerifI03_round() {
	x, n := vk.Int("x", -(1<<40), 1<<40), vk.Split("bits", vk.Int("n", 1, 16), 1, 16)
	vk.Assert(util.Round2Signed(x, n) == iRound(x, n), "rounded value")
	vk.Reach("end")
}

var iTaps = [5][8][7]int{
	{{-6, 10, 0, 0, 0, 12, 0}, {-5, 2, 10, 0, 0, 9, 0}, {-3, 1, 1, 10, 0, 7, 0}, {-3, 1, 1, 2, 10, 5, 0},
		{-4, 6, 0, 0, 0, 2, 12}, {-3, 2, 6, 0, 0, 2, 9}, {-3, 2, 2, 6, 0, 2, 7}, {-3, 1, 2, 2, 6, 3, 5}},
	{{-10, 16, 0, 0, 0, 10, 0}, {-6, 0, 16, 0, 0, 6, 0}, {-4, 0, 0, 16, 0, 4, 0}, {-2, 0, 0, 0, 16, 2, 0},
		{-10, 16, 0, 0, 0, 0, 10}, {-6, 0, 16, 0, 0, 0, 6}, {-4, 0, 0, 16, 0, 0, 4}, {-2, 0, 0, 0, 16, 0, 2}},
	{{-8, 8, 0, 0, 0, 16, 0}, {-8, 0, 8, 0, 0, 16, 0}, {-8, 0, 0, 8, 0, 16, 0}, {-8, 0, 0, 0, 8, 16, 0},
		{-4, 4, 0, 0, 0, 0, 16}, {-4, 0, 4, 0, 0, 0, 16}, {-4, 0, 0, 4, 0, 0, 16}, {-4, 0, 0, 0, 4, 0, 16}},
	{{-2, 8, 0, 0, 0, 10, 0}, {-1, 3, 8, 0, 0, 6, 0}, {-1, 2, 3, 8, 0, 4, 0}, {0, 1, 2, 3, 8, 2, 0},
		{-1, 4, 0, 0, 0, 3, 10}, {-1, 3, 4, 0, 0, 4, 6}, {-1, 2, 3, 4, 0, 4, 4}, {-1, 2, 2, 3, 4, 3, 3}},
	{{-12, 14, 0, 0, 0, 14, 0}, {-10, 0, 14, 0, 0, 12, 0}, {-9, 0, 0, 14, 0, 11, 0}, {-8, 0, 0, 0, 14, 10, 0},
		{-10, 12, 0, 0, 0, 0, 14}, {-9, 1, 12, 0, 0, 0, 12}, {-8, 0, 0, 12, 0, 1, 11}, {-7, 0, 0, 1, 12, 1, 9}},
}

func iRecursive(size int, sparse bool) {
	b := iNew(size, 0, iDepth(), 4, 8, 40, 40, true, sparse)
	util.VerifHook_Round2Signed = iRound
	b.iHave()
	mode := vk.Split("filter", vk.Int("filter", 0, 4), 0, 4)
	b.t.UseFilterIntra = true
	b.t.FilterIntraMode = mode
	out := make([][]int, b.h)
	for i := range out {
		out[i] = make([]int, b.w)
	}
	at := func(i, j int) int {
		if i < 0 {
			return b.A(j)
		}
		if j < 0 {
			return b.L(i)
		}
		return out[i][j]
	}
	for r := 0; r < b.h; r += 2 {
		for c := 0; c < b.w; c += 4 {
			p := [7]int{at(r-1, c-1), at(r-1, c), at(r-1, c+1), at(r-1, c+2), at(r-1, c+3), at(r, c-1), at(r+1, c-1)}
			for k, taps := range iTaps[mode] {
				s := 0
				for i, f := range taps {
					s += f * p[i]
				}
				out[r+k/4][c+k%4] = iClip(iRound(s, 4), b.depth)
			}
		}
	}
	b.check(0, func(i, j int) int { return out[i][j] })
}

//verif:bounds 4x4, every filter, edge sample, availability and bit depth
func VerifI03_filter4x4() { iRecursive(0, false) }

//verif:bounds 8x4, every filter, edge sample, availability and bit depth
func VerifI03_filter8x4() { iRecursive(6, false) }

//verif:bounds 4x16, every filter, edge sample, availability and bit depth
func VerifI03_filter4x16() { iRecursive(13, false) }

//verif:bounds 8x8, every filter, edge sample, availability and bit depth
func VerifI03_filter8x8() { iRecursive(1, false) }

// iCfl predicts chroma from luma with the luma known up to (lw,lh).
func iCfl(size int) {
	iFast()
	util.VerifHook_Round2Signed = iRound
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	depth := 10
	sh.ColorConfig.BitDepth = depth
	format := vk.Split("format", vk.Int("format", 0, 2), 0, 2)
	sx, sy := 0, 0
	if format > 0 {
		sx = 1
	}
	if format > 1 {
		sy = 1
	}
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = sx > 0, sy > 0
	plane := vk.Split("p", vk.Int("plane", 1, 2), 1, 2)
	alpha := []int{-16, -5, 0, 1, 9}[vk.Split("a", vk.Int("alpha", 0, 4), 0, 4)]
	t.CflAlphaU, t.CflAlphaV = 3, alpha
	if plane == 1 {
		t.CflAlphaU, t.CflAlphaV = alpha, 3
	}
	w, h := iWide[size], iHigh[size]
	x, y := 4, 8
	lw, lh := (x+w)<<sx, (y+h)<<sy
	switch vk.Split("l", vk.Int("luma", 0, 2), 0, 2) {
	case 1:
		lw -= (w / 2) << sx
	case 2:
		lh -= (h / 2) << sy
		lw += 4
	}
	t.MaxLumaW, t.MaxLumaH = lw, lh
	for p := range s.CurrFrame {
		s.CurrFrame[p] = make([][]int, 2*(y+h)+4)
		for i := range s.CurrFrame[p] {
			s.CurrFrame[p][i] = make([]int, 2*(x+w)+8)
		}
	}
	for i := y << sy; i < lh; i++ {
		for j := x << sx; j < lw; j++ {
			s.CurrFrame[0][i][j] = vk.IntAt("luma", i*256+j, 0, 1<<depth-1)
		}
	}
	dc := vk.Int("dc", 0, 1<<depth-1)
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			s.CurrFrame[plane][y+i][x+j] = dc
		}
	}
	t.predictChromaFromLuma(plane, x, y, size, sh, &s)
	l := make([]int, w*h)
	sum := 0
	for k := range l {
		i, j := (y+k/w)<<sy, (x+k%w)<<sx
		if i > lh-1<<sy {
			i = lh - 1<<sy
		}
		if j > lw-1<<sx {
			j = lw - 1<<sx
		}
		v := s.CurrFrame[0][i][j]
		if sx > 0 {
			v += s.CurrFrame[0][i][j+1]
		}
		if sy > 0 {
			v += s.CurrFrame[0][i+1][j] + s.CurrFrame[0][i+1][j+1]
		}
		l[k] = v * 8 >> (sx + sy)
		sum += l[k]
	}
	avg := (sum + w*h/2) / (w * h)
	for i := range s.CurrFrame[plane] {
		for j, v := range s.CurrFrame[plane][i] {
			want := 0
			if i >= y && i < y+h && j >= x && j < x+w {
				want = iClip(dc+iRound(alpha*(l[(i-y)*w+j-x]-avg), 6), depth)
			}
			vk.Assert(v == want, "chroma sample")
		}
	}
	vk.Reach("end")
}

//verif:bounds 4x4 chroma in every format, five scalings, every luma and DC sample of 10 bits, known luma of full and half size
func VerifI03_cfl4x4() { iCfl(0) }

//verif:bounds 8x4 chroma in every format, five scalings, every luma and DC sample of 10 bits, known luma of full and half size
func VerifI03_cfl8x4() { iCfl(6) }

//verif:bounds 4x16 chroma in every format, five scalings, every luma and DC sample of 10 bits, known luma of full and half size
func VerifI03_cfl4x16() { iCfl(13) }

//verif:bounds 8x8 chroma in every format, five scalings, every luma and DC sample of 10 bits, known luma of full and half size
func VerifI03_cfl8x8() { iCfl(1) }

//verif:bounds 4x4, 8x8 and 16x4 transforms at three places of a block, every palette, every index
func VerifI03_palette() {
	iFast()
	var t TileGroup
	var s state.State
	size := []int{0, 1, 14}[vk.Split("s", vk.Int("size", 0, 2), 0, 2)]
	plane := vk.Split("p", vk.Int("plane", 0, 2), 0, 2)
	bx, by := []int{0, 1, 2}[vk.Split("bx", vk.Int("bx", 0, 2), 0, 2)], []int{0, 2}[vk.Split("by", vk.Int("by", 0, 1), 0, 1)]
	w, h := iWide[size], iHigh[size]
	var pal [3][]int
	for p := range pal {
		pal[p] = vk.Ints([]string{"colorY", "colorU", "colorV"}[p], 8, 0, 1023)
	}
	copy(t.PaletteColorsY[:], pal[0])
	copy(t.PaletteColorsU[:], pal[1])
	copy(t.PaletteColorsV[:], pal[2])
	var idx [24][32]int
	for i := 0; i < 16; i++ {
		for j := 0; j < 24; j++ {
			idx[i][j] = vk.IntAt("index", i*32+j, 0, 7)
			t.ColorMapY[i][j], t.ColorMapUV[i][j] = 7-idx[i][j], idx[i][j]
			if plane == 0 {
				t.ColorMapY[i][j], t.ColorMapUV[i][j] = idx[i][j], 7-idx[i][j]
			}
		}
	}
	x, y := 20+4*bx, 8+4*by
	for p := range s.CurrFrame {
		s.CurrFrame[p] = make([][]int, 40)
		for i := range s.CurrFrame[p] {
			s.CurrFrame[p][i] = make([]int, 60)
		}
	}
	t.palettePrediction(plane, x, y, bx, by, size, &s)
	for i := range s.CurrFrame[plane] {
		for j, v := range s.CurrFrame[plane][i] {
			want := 0
			if i >= y && i < y+h && j >= x && j < x+w {
				want = pal[plane][idx[i-8][j-20]]
			}
			vk.Assert(v == want, "palette sample")
		}
	}
	vk.Reach("end")
}
