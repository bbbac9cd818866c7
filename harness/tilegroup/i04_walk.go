package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/tilegroup predictIntra
//verif:hook internal/tilegroup palettePrediction
//verif:hook internal/tilegroup predictChromaFromLuma
//verif:hook internal/tilegroup coeffs
//verif:hook internal/tilegroup reconstruct

// iTx finds the transform of w by h samples.
func iTx(w, h int) int {
	for i := range iWide {
		if iWide[i] == w && iHigh[i] == h {
			return i
		}
	}
	return -1
}

const (
	evIntra = iota + 1
	evCfl
	evPalette
	evCoeffs
	evRecon
)

// iEv is one step of the reconstruction of a block.
type iEv struct {
	kind, plane, x, y, w, h   int
	bx, by                    int // within the block, for palettes
	left, above, right, below bool
	mode                      int
	lw, lh                    int // known luma
}

// iWalk is the second walk through the blocks of a superblock.
type iWalk struct {
	t        *TileGroup
	s        *state.State
	sh       sequenceheader.SequenceHeader
	sx, sy   int
	sb, base int // superblock size and position in units of 4
	decoded  [3][70][70]bool
	sizes    [3][64][64]int
	want     []iEv
	at       int
	coded    int // reconstruct every coded-th block
	nth      int
	lw, lh   int
}

func (k *iWalk) next(kind, plane, x, y int) iEv {
	vk.Assert(k.at < len(k.want), "a step too many")
	if k.at >= len(k.want) {
		return iEv{}
	}
	e := k.want[k.at]
	k.at++
	vk.Assert(e.kind == kind, "another step")
	vk.Assert(vk.And(e.plane == plane, vk.And(e.x == x, e.y == y)), "another place")
	return e
}

func (k *iWalk) hooks() {
	VerifHook_predictIntra = func(t *TileGroup, plane, x, y int, l, a, r, b bool, mode, lw, lh int, s *state.State, sh sequenceheader.SequenceHeader) {
		e := k.next(evIntra, plane, x, y)
		vk.Assert(e.left == l, "left neighbour")
		vk.Assert(e.above == a, "upper neighbour")
		vk.Assert(e.right == r, "upper right neighbour")
		vk.Assert(e.below == b, "lower left neighbour")
		vk.Assert(e.mode == mode, "mode")
		vk.Assert(e.w == 1<<lw && e.h == 1<<lh, "size")
	}
	VerifHook_palettePrediction = func(t *TileGroup, plane, x, y, bx, by, size int, s *state.State) {
		e := k.next(evPalette, plane, x, y)
		vk.Assert(e.bx == bx && e.by == by, "place in the palette block")
		vk.Assert(e.w == iWide[size] && e.h == iHigh[size], "size")
	}
	VerifHook_predictChromaFromLuma = func(t *TileGroup, plane, x, y, size int, sh sequenceheader.SequenceHeader, s *state.State) {
		e := k.next(evCfl, plane, x, y)
		vk.Assert(e.w == iWide[size] && e.h == iHigh[size], "size")
		vk.Assert(e.lw == t.MaxLumaW && e.lh == t.MaxLumaH, "known luma")
	}
	VerifHook_coeffs = func(t *TileGroup, plane, x, y, size int, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, s *state.State, sh sequenceheader.SequenceHeader) int {
		e := k.next(evCoeffs, plane, x, y)
		vk.Assert(e.w == iWide[size] && e.h == iHigh[size], "size")
		k.nth++
		if k.nth%k.coded != 0 {
			return 0
		}
		return k.nth
	}
	VerifHook_reconstruct = func(t *TileGroup, plane, x, y, size int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State) {
		e := k.next(evRecon, plane, x, y)
		vk.Assert(e.w == iWide[size] && e.h == iHigh[size], "size")
	}
}

// block is one transform block of w by h samples; n counts coefficients.
func (k *iWalk) block(n *int, plane, x, y, w, h, bx, by int) {
	sx, sy := 0, 0
	if plane > 0 {
		sx, sy = k.sx, k.sy
	}
	if x >= k.s.MiCols*4>>sx || y >= k.s.MiRows*4>>sy {
		return
	}
	e := iEv{plane: plane, x: x, y: y, w: w, h: h, bx: bx, by: by}
	// in units of 4 samples of this plane, from one before the superblock
	ux, uy := x/4-k.base>>sx+1, y/4-k.base>>sy+1
	w4, h4 := w/4, h/4
	t, s := k.t, k.s
	add := func(kind int) {
		e.kind = kind
		k.want = append(k.want, e)
	}
	if t.IsInter == 0 {
		if plane == 0 && t.PaletteSizeY > 0 || plane > 0 && t.PaletteSizeUV > 0 {
			add(evPalette)
		} else {
			e.left, e.above = vk.Or(s.AvailL, bx > 0), vk.Or(s.AvailU, by > 0)
			e.mode = t.YMode
			if plane > 0 {
				e.left, e.above = vk.Or(s.AvailLChroma, bx > 0), vk.Or(s.AvailUChroma, by > 0)
				e.mode = t.UVMode
				if t.UVMode == 13 {
					e.mode = 0
				}
			}
			e.right, e.below = k.decoded[plane][uy-1][ux+w4], k.decoded[plane][uy+h4][ux-1]
			e.lw, e.lh = k.lw, k.lh
			add(evIntra)
			if plane > 0 && t.UVMode == 13 {
				add(evCfl)
			}
		}
		if plane == 0 {
			k.lw, k.lh = x+w, y+h
		}
	}
	if t.Skip == 0 {
		add(evCoeffs)
		*n++
		if *n%k.coded == 0 {
			add(evRecon)
		}
	}
	for i := 0; i < h4; i++ {
		for j := 0; j < w4; j++ {
			k.decoded[plane][uy+i][ux+j] = true
			k.sizes[plane][y/4+i][x/4+j] = iTx(w, h)
		}
	}
}

func (k *iWalk) tree(n *int, x, y, w, h int) {
	if x >= k.s.MiCols*4 || y >= k.s.MiRows*4 {
		return
	}
	tx := k.t.InterTxSizes[y/4][x/4]
	if w <= iWide[tx] && h <= iHigh[tx] {
		k.block(n, 0, x, y, w, h, 0, 0)
		return
	}
	hw, hh := w, h
	if w >= h {
		hw = w / 2
	}
	if h >= w {
		hh = h / 2
	}
	for i := 0; i < h; i += hh {
		for j := 0; j < w; j += hw {
			k.tree(n, x+j, y+i, hw, hh)
		}
	}
}

// run decodes one block.
func (k *iWalk) run(row, col, size, tx int) {
	t, s := k.t, k.s
	w4, h4 := iBW[size], iBH[size]
	s.MiRow, s.MiCol, s.MiSize = row, col, size
	t.TxSize = tx
	t.HasChroma = (k.sx == 0 || w4 > 1 || col%2 == 1) && (k.sy == 0 || h4 > 1 || row%2 == 1)
	k.want, k.at = nil, 0
	n := k.nth
	for cy := 0; cy < h4; cy += 16 {
		for cx := 0; cx < w4; cx += 16 {
			for plane := 0; plane < 3 && (plane == 0 || t.HasChroma); plane++ {
				sx, sy := 0, 0
				if plane > 0 {
					sx, sy = k.sx, k.sy
				}
				cap := func(x, m int) int {
					if x > m {
						return m
					}
					return x
				}
				// size of the chunk and of its transforms in this plane
				w, h := cap(w4, 16)*4>>sx, cap(h4, 16)*4>>sy
				if w < 4 {
					w = 4
				}
				if h < 4 {
					h = 4
				}
				tw, th := iWide[tx], iHigh[tx]
				if plane > 0 {
					tw, th = cap(w, 32), cap(h, 32)
				}
				if t.Lossless {
					tw, th = 4, 4
				}
				if t.IsInter == 1 && plane == 0 && !t.Lossless {
					k.tree(&n, (col+cx)*4, (row+cy)*4, w, h)
					continue
				}
				for y := 0; y < h; y += th {
					for x := 0; x < w; x += tw {
						bx, by := x+cx*4>>sx, y+cy*4>>sy
						k.block(&n, plane, col>>sx*4+bx, row>>sy*4+by, tw, th, bx/4, by/4)
					}
				}
			}
		}
	}
	t.residual(k.sh, s, nil, uncompressedheader.UncompressedHeader{})
	vk.Assert(k.at == len(k.want), "a step is missing")
	for p := 0; p < 3; p++ {
		for i := row >> 1; i < row+h4; i++ {
			for j := col >> 1; j < col+w4; j++ {
				vk.Assert(t.LoopFilterTxSizes[p][i][j] == k.sizes[p][i][j], "recorded size")
			}
		}
	}
}

// iWalkNew starts a superblock at 32,32 (128) or 48,16 (64).
func iWalkNew(big bool, format int) *iWalk {
	k := &iWalk{t: &TileGroup{}, s: &state.State{}, sb: 16, base: 32, coded: 2}
	k.sh.ColorConfig.NumPlanes = 3
	if format > 0 {
		k.sx = 1
	}
	if format > 1 {
		k.sy = 1
	}
	k.sh.ColorConfig.SubsamplingX, k.sh.ColorConfig.SubsamplingY = k.sx > 0, k.sy > 0
	k.sh.Use128x128SuperBlock = big
	if big {
		k.sb = 32
	}
	k.s.MiCols, k.s.MiRows = 64, 64
	k.hooks()
	return k
}

// clear forgets the decoded blocks for a tile that ends at the given units.
func (k *iWalk) clear(rowEnd, colEnd int) {
	k.s.MiRowEnd, k.s.MiColEnd = rowEnd, colEnd
	k.t.clearBlockDecodedFlags(k.base, k.base, k.sb, k.s, k.sh)
	for p := 0; p < 3; p++ {
		sx, sy := 0, 0
		if p > 0 {
			sx, sy = k.sx, k.sy
		}
		for i := 0; i <= k.sb>>sy+1; i++ {
			for j := 0; j <= k.sb>>sx+1; j++ {
				k.decoded[p][i][j] = i == 0 && j-1 < (colEnd-k.base)>>sx || j == 0 && i-1 < (rowEnd-k.base)>>sy
			}
		}
		k.decoded[p][k.sb>>sy+1][0] = false
	}
}

func (k *iWalk) modes() {
	s, t := k.s, k.t
	s.AvailU, s.AvailL, s.AvailUChroma, s.AvailLChroma = vk.Bool("up"), vk.Bool("left"), vk.Bool("upuv"), vk.Bool("leftuv")
	t.YMode, t.UVMode = vk.Int("ymode", 0, 12), vk.Int("uvmode", 0, 12)
}

// iQuad walks four blocks of a size, or as many as there are in a
// superblock.
func iQuad(lo, hi int) {
	size := vk.Split("s", vk.Int("size", lo, hi), lo, hi)
	w4, h4 := iBW[size], iBH[size]
	format := vk.Split("f", vk.Int("format", 0, 2), 0, 2)
	vk.Assume(format != 1 || w4 >= h4)
	k := iWalkNew(w4 > 16 || h4 > 16 || size%2 == 0, format)
	k.modes()
	kind := vk.Split("k", vk.Int("kind", 0, 5), 0, 5)
	tw, th := w4*4, h4*4
	if tw > 64 {
		tw = 64
	}
	if th > 64 {
		th = 64
	}
	tx := iTx(tw, th)
	sub := tx
	if tw >= th && tw > 4 {
		tw /= 2
	}
	if th > tw && th > 4 {
		th /= 2
	}
	if th > tw*2 {
		th /= 2
	}
	if n := iTx(tw, th); n >= 0 {
		sub = n
	}
	switch kind {
	case 1:
		k.t.Skip = 1
		tx = sub
	case 2:
		k.t.Lossless = true
		tx = 0
		k.coded = 3
	case 3:
		k.t.UVMode = 13
		tx = sub
	case 4, 5:
		k.t.IsInter = 1
		k.t.Lossless = kind == 5 && size%2 == 1
	}
	if kind == 0 && w4 > 1 && h4 > 1 && w4 <= 16 && h4 <= 16 {
		k.t.PaletteSizeY, k.t.PaletteSizeUV = size%3*2, (size+1)%3
	}
	ends := vk.Split("ends", vk.Int("ends", 0, 2), 0, 2)
	rowEnd, colEnd := k.base+k.sb, k.base+k.sb
	switch ends {
	case 1:
		rowEnd, colEnd = k.base+(h4+1)/2*2, k.base+(w4+3)/4*6
		k.s.MiRows, k.s.MiCols = rowEnd, colEnd
	case 2:
		rowEnd, colEnd = 64, 64
	}
	k.clear(rowEnd, colEnd)
	for i := 0; i < 64; i++ {
		for j := 0; j < 64; j++ {
			k.t.InterTxSizes[i][j] = tx
			if kind == 5 || (i/(h4+1)+j/(w4+1))%2 == 1 {
				k.t.InterTxSizes[i][j] = sub
			}
		}
	}
	for r := 0; r < 2*h4 && r < k.sb; r += h4 {
		for c := 0; c < 2*w4 && c < k.sb; c += w4 {
			if k.base+r < k.s.MiRows && k.base+c < k.s.MiCols {
				k.run(k.base+r, k.base+c, size, tx)
			}
		}
	}
	vk.Reach("end")
}

//verif:bounds blocks of size codes 0 to 3, up to four in a superblock, every format, availability and mode, intra, palette, chroma from luma, lossless, skipped and inter, three frame and tile ends
//verif:loop 5000
//verif:time 400
func VerifI04_walk0() { iQuad(0, 3) }

//verif:bounds blocks of size codes 4 to 6, up to four in a superblock, every format, availability and mode, intra, palette, chroma from luma, lossless, skipped and inter, three frame and tile ends
//verif:loop 5000
//verif:time 400
func VerifI04_walk4() { iQuad(4, 6) }

//verif:bounds blocks of size codes 7 to 9, up to four in a superblock, every format, availability and mode, intra, palette, chroma from luma, lossless, skipped and inter, three frame and tile ends
//verif:loop 5000
//verif:time 400
func VerifI04_walk7() { iQuad(7, 9) }

//verif:bounds blocks of size codes 10 to 12, up to four in a superblock, every format, availability and mode, intra, palette, chroma from luma, lossless, skipped and inter, three frame and tile ends
//verif:loop 5000
//verif:time 400
func VerifI04_walk10() { iQuad(10, 12) }

//verif:bounds blocks of size codes 13 to 14, up to four in a superblock, every format, availability and mode, intra, palette, chroma from luma, lossless, skipped and inter, three frame and tile ends
//verif:loop 5000
//verif:time 400
func VerifI04_walk13() { iQuad(13, 14) }

//verif:bounds blocks of size codes 15 to 15, up to four in a superblock, every format, availability and mode, intra, palette, chroma from luma, lossless, skipped and inter, three frame and tile ends
//verif:loop 5000
//verif:time 400
func VerifI04_walk15() { iQuad(15, 15) }

//verif:bounds blocks of size codes 16 to 18, up to four in a superblock, every format, availability and mode, intra, palette, chroma from luma, lossless, skipped and inter, three frame and tile ends
//verif:loop 5000
//verif:time 400
func VerifI04_walk16() { iQuad(16, 18) }

//verif:bounds blocks of size codes 19 to 21, up to four in a superblock, every format, availability and mode, intra, palette, chroma from luma, lossless, skipped and inter, three frame and tile ends
//verif:loop 5000
//verif:time 400
func VerifI04_walk19() { iQuad(19, 21) }
