package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// The steps of a block are replaced: the first makes every decision of a
// block arbitrary, the others note when they are reached.
//
//verif:hook internal/tilegroup modeInfo
//verif:hook internal/tilegroup paletteTokens
//verif:hook internal/tilegroup readBlockTxSize
//verif:hook internal/tilegroup computePrediction
//verif:hook internal/tilegroup residual

//verif:bounds every block size in 4:4:4, 4:2:2, 4:2:0 and monochrome, at 4-sample positions 16..17 in a tile that starts there or one or two units earlier, every mode; palettes of 0, 2, 3 and 8 colours
//verif:loop 2000
func VerifK10_block() {
	var x kBlk
	size := vk.Split("size", vk.Int("size", 0, 21), 0, 21)
	ss := vk.Split("ss", vk.Int("ss", 0, 3), 0, 3)
	r := vk.Split("row", vk.Int("row", 16, 17), 16, 17)
	c := vk.Split("col", vk.Int("col", 16, 17), 16, 17)
	w, h := specW4[size], specH4[size]
	vk.Assume((w == 1 || c == 16) && (h == 1 || r == 16)) // blocks are aligned
	subX, subY := ss == 1 || ss == 2, ss == 1
	x.sh.ColorConfig.SubsamplingX, x.sh.ColorConfig.SubsamplingY = subX, subY
	x.sh.ColorConfig.NumPlanes = 3
	if ss == 3 {
		x.sh.ColorConfig.NumPlanes = 1
	}
	x.s.MiRowStart, x.s.MiColStart = vk.Int("top", 14, 16), vk.Int("left", 14, 16)
	x.s.MiRows, x.s.MiCols = 60, 60
	x.s.MiRowEnd, x.s.MiColEnd = 60, 60
	ctx := func() (r [][]int) {
		for p := 0; p < 3; p++ {
			r = append(r, make([]int, 80))
			for i := range r[p] {
				r[p][i] = 5
			}
		}
		return
	}
	x.t.AboveLevelContext, x.t.AboveDcContext, x.t.LeftLevelContext = ctx(), ctx(), ctx()
	for p, v := range ctx() {
		x.t.LeftDcContext[p] = v
	}
	chroma := ss != 3 && !(subY && h == 1 && r%2 == 0) && !(subX && w == 1 && c%2 == 0)

	step := 0
	next := func(n int, msg string) {
		step++
		vk.Assert(step == n, msg)
	}
	intrabc, skip, inter := false, 0, 0
	VerifHook_modeInfo = func(t *TileGroup, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader, s *state.State) {
		next(1, "modes are read first")
		vk.Assert(s.MiRow == r && s.MiCol == c && s.MiSize == size, "the position and size of a block")
		vk.Assert(t.HasChroma == chroma, "whether a block has chroma")
		up, left := r > s.MiRowStart, c > s.MiColStart
		vk.Assert(s.AvailU == up && s.AvailL == left, "the neighbours of a block")
		if subY && h == 1 {
			up = r-1 > s.MiRowStart
		}
		if subX && w == 1 {
			left = c-1 > s.MiColStart
		}
		vk.Assert(s.AvailUChroma == vk.And(chroma, up) && s.AvailLChroma == vk.And(chroma, left), "the neighbours of a chroma block")
		skip, inter = vk.Int("skip", 0, 1), vk.Int("inter", 0, 1)
		t.Skip, t.IsInter = skip, inter
		t.SkipMode = vk.Int("skipmode", 0, 1)
		t.SegmentId = vk.Int("seg", 0, 7)
		t.YMode, t.UVMode = vk.Int("ymode", 0, 12), vk.Int("uvmode", 0, 13)
		intrabc = vk.Bool("intrabc")
		t.useIntrabc = vkspec.B(intrabc)
		s.RefFrame = [2]int{vk.Int("ref0", 0, 7), vk.Int("ref1", -1, 7)}
		vk.Assume(vk.Imp(inter == 0, vk.And(s.RefFrame[0] == 0, s.RefFrame[1] < 1)))
		vk.Assume(vk.Imp(vk.And(inter == 1, !intrabc), s.RefFrame[0] > 0))
		vk.Assume(vk.Imp(intrabc, vk.And(inter == 1, vk.And(s.RefFrame[0] == 0, s.RefFrame[1] == -1))))
		vk.Fill("mv", &t.Mv, -30000, 30000)
		vk.Fill("filter", &t.InterpFilter, 0, 3)
		t.CompGroupIdx, t.CompoundIdx = vk.Int("group", 0, 1), vk.Int("idx", 0, 1)
		p := vk.Split("palette", vk.Int("palette", 0, 2), 0, 2)
		t.PaletteSizeY, t.PaletteSizeUV = []int{0, 8, 3}[p], []int{2, 0, 8}[p]
		vk.Fill("cy", &t.PaletteColorsY, 0, 4095)
		vk.Fill("cu", &t.PaletteColorsU, 0, 4095)
		vk.Fill("lf", &s.DeltaLF, -63, 63)
	}
	VerifHook_paletteTokens = func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		next(2, "palette indexes are read after the modes")
	}
	VerifHook_readBlockTxSize = func(t *TileGroup, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
		next(3, "transform sizes are read after palette indexes")
		t.TxSize = vk.Int("tx", 0, 18)
	}
	corner := [][2]int{{r, c}, {r + h - 1, c}, {r, c + w - 1}, {r + h - 1, c + w - 1}}
	VerifHook_computePrediction = func(t *TileGroup, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		next(4, "prediction comes after the syntax")
		for _, p := range corner {
			y, x := p[0], p[1]
			vk.Assert(t.YModes[y][x] == t.YMode, "the mode of a block is stored")
			vk.Assert(vk.Imp(vk.And(chroma, s.RefFrame[0] == 0), t.UVModes[y][x] == t.UVMode), "the chroma mode is stored")
			vk.Assert(s.RefFrames[y][x] == s.RefFrame, "the references are stored")
			vk.Assert(vk.Imp(inter == 1, t.InterpFilters[y][x] == t.InterpFilter), "the filters are stored")
			vk.Assert(vk.Imp(inter == 1, t.Mvs[y][x][0] == t.Mv[0]), "the motion vector is stored")
			vk.Assert(vk.Imp(vk.And(inter == 1, s.RefFrame[1] > 0), t.Mvs[y][x][1] == t.Mv[1]), "the second motion vector is stored")
			vk.Assert(vk.Imp(s.RefFrame[1] > 0, vk.And(t.CompGroupIdxs[y][x] == t.CompGroupIdx, t.CompoundIdxs[y][x] == t.CompoundIdx)), "the compound type is stored")
		}
	}
	VerifHook_residual = func(t *TileGroup, sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
		next(5, "the residual comes after the prediction")
		for p := 0; p < 3; p++ {
			sx, sy := vkspec.B(subX && p > 0), vkspec.B(subY && p > 0)
			in := p == 0 || chroma
			for i := 0; i < 80; i++ {
				a := 5
				if in && i >= c>>sx && i <= (c+w-1)>>sx {
					a = vk.Ite(skip == 1, 0, 5)
				}
				l := 5
				if in && i >= r>>sy && i <= (r+h-1)>>sy {
					l = vk.Ite(skip == 1, 0, 5)
				}
				vk.Assert(t.AboveLevelContext[p][i] == a && t.AboveDcContext[p][i] == a, "a skipped block clears the contexts above")
				vk.Assert(t.LeftLevelContext[p][i] == l && t.LeftDcContext[p][i] == l, "a skipped block clears the contexts to the left")
			}
		}
		t.TxSize = vk.Int("tx2", 0, 18)
	}
	x.t.decodeBlock(r, c, size, &x.b, &x.s, x.sh, x.u)
	vk.Assert(step == 5, "all steps are taken")
	for _, p := range corner {
		y, xx := p[0], p[1]
		vk.Assert(x.t.IsInters[y][xx] == inter && x.t.SkipModes[y][xx] == x.t.SkipMode && x.t.Skips[y][xx] == skip, "the kind of a block is stored")
		vk.Assert(x.t.TxSizes[y][xx] == x.t.TxSize && x.s.MiSizes[y][xx] == size && x.t.SegmentIds[y][xx] == x.t.SegmentId, "the sizes and the segment of a block are stored")
		vk.Assert(x.t.PaletteSizes[0][y][xx] == x.t.PaletteSizeY && x.t.PaletteSizes[1][y][xx] == x.t.PaletteSizeUV, "the palette sizes are stored")
		for i := 0; i < 8; i++ {
			vk.Assert(vk.Imp(i < x.t.PaletteSizeY, x.t.PaletteColors[0][y][xx][i] == x.t.PaletteColorsY[i]), "a palette is stored")
			vk.Assert(vk.Imp(i < x.t.PaletteSizeUV, x.t.PaletteColors[1][y][xx][i] == x.t.PaletteColorsU[i]), "a chroma palette is stored")
		}
		vk.Assert(x.s.DeltaLFs[y][xx] == x.s.DeltaLF, "the filter levels of a block are stored")
	}
	vk.Assert(x.s.MiSizes[r][c+w] == 0 && x.s.MiSizes[r+h][c] == 0 && x.s.MiSizes[r-1][c] == 0 && x.s.MiSizes[r][c-1] == 0, "only the block is stored")
	vk.Reach("end")
}

//verif:loop 5000
//verif:bounds a 64x64 transform without coefficients at the last units of a frame, every symbol
func VerifK10_edge() {
	var x kBlk
	kHooks()
	symbol.VerifHook_ReadSymbol = func(cdf []int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
		return 1
	}
	x.s.TileTxbSkipCdf = [][][]int{nil, nil, nil, nil, rows(0, 13, 2)}
	x.s.MiRows, x.s.MiCols = 18, 18
	x.s.MiSize = 12
	plane := vk.Split("plane", vk.Int("plane", 0, 2), 0, 2)
	vk.Assert(vk.Try(func() {
		x.t.clearAboveContext(&x.s)
		x.t.clearLeftContext(&x.s)
		x.t.coeffs(plane, 16*4, 17*4, 4, &x.b, x.u, &x.s, x.sh)
	}), "a transform block may cross the frame edge")
	vk.Reach("end")
}
