package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// The work on a tile and the end of a frame are replaced by recorders; the
// recorder of the tile's end moves to where its data ends, as the real one
// does (E04).
//
//verif:hook internal/tilegroup initSymbol
//verif:hook internal/tilegroup decodeTile
//verif:hook internal/tilegroup exitSymbol
//verif:hook internal/tilegroup allocateFrames
//verif:hook internal/tilegroup frameEndUpdateCdf
//verif:hook internal/tilegroup decodeFrameWrapup

type gStep struct{ what, tile, pos, size, rs, re, cs, ce, q int }

// Bits for the number of a row or column.
var tileBits = [4]int{0, 0, 1, 2}

func tileGroup(rows, cols int) {
	var got [24]gStep
	n := 0
	vk.Pin(&n)
	s, uh, sh := &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	note := func(what, size int, b *bitstream.BitStream, s *state.State) {
		g := gStep{what: what, tile: s.TileNum, size: size}
		if b != nil {
			g.pos = b.Position
			g.rs, g.re, g.cs, g.ce = s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd
			g.q = s.CurrentQIndex
		}
		got[n] = g
		n++
	}
	last := 0
	VerifHook_initSymbol = func(t *TileGroup, sz int, b *bitstream.BitStream, s *state.State) {
		note(1, sz, b, s)
		last = b.Position + 8*sz
	}
	VerifHook_decodeTile = func(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		note(2, 0, b, s)
		s.CurrentQIndex = 7
	}
	VerifHook_exitSymbol = func(t *TileGroup, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
		note(3, 0, b, s)
		b.Position = last
	}
	VerifHook_allocateFrames = func(s *state.State) { got[n] = gStep{what: 4}; n++ }
	VerifHook_frameEndUpdateCdf = func(t *TileGroup, s *state.State) { got[n] = gStep{what: 5}; n++ }
	VerifHook_decodeFrameWrapup = func(t *TileGroup, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		got[n] = gStep{what: 6}
		n++
	}
	d := vk.Bytes("d", 16)
	start, most := vk.Split("start", vk.Int("start", 0, 1), 0, 1), 14
	if rows*cols > 2 && !vk.Thorough() {
		// Fewer layouts.
		most = 3
		vk.Assume(start == 1)
	}
	sz := vk.Int("sz", 1, 15)
	s.TileRows, s.TileCols = rows, cols
	s.TileRowsLog2, s.TileColsLog2 = tileBits[rows], tileBits[cols]
	s.TileSizeBytes = vk.Split("bytes", vk.Int("bytes", 1, 4), 1, 4)
	if most == 3 {
		vk.Assume(s.TileSizeBytes <= 2)
	}
	s.MiRowStarts, s.MiColStarts = make([]int, rows+1), make([]int, cols+1)
	for i := range s.MiRowStarts {
		s.MiRowStarts[i] = vk.IntAt("rowstart", i, 0, 2000)
	}
	for i := range s.MiColStarts {
		s.MiColStarts[i] = vk.IntAt("colstart", i, 0, 2000)
	}
	uh.BaseQIdx = vk.Int("q", 0, 255)
	uh.DisableFrameEndUpdateCdf = vk.SplitBool("noupdate", vk.Bool("noupdate"))
	s.SeenFrameHeader = true

	// The layout of the group.
	r := vkspec.R{D: d, P: 8 * start}
	first, end := 0, rows*cols-1
	if rows*cols > 1 && r.Flag() {
		first = r.F(s.TileRowsLog2 + s.TileColsLog2)
		end = r.F(s.TileRowsLog2 + s.TileColsLog2)
	}
	vk.Assume(first <= end)
	vk.Assume(end < rows*cols)
	first = vk.Split("first", first, 0, rows*cols-1)
	end = vk.Split("last", end, 0, rows*cols-1)
	r.P = (r.P + 7) &^ 7
	var at, size [8]int
	left := sz - (r.P>>3 - start)
	vk.Assume(left > 0)
	p := r.P >> 3
	for i := first; i < end; i++ {
		vk.Assume(left > s.TileSizeBytes)
		v := 1
		for j := 0; j < s.TileSizeBytes; j++ {
			v += int(d[p+j]) << (8 * j)
		}
		left -= s.TileSizeBytes
		p += s.TileSizeBytes
		vk.Assume(v < left)
		vk.Assume(v <= most)
		v = vk.Split("tilesize", v, 1, most)
		left -= v
		at[i], size[i] = 8*p, v
		p += v
	}
	vk.Assume(left > 0)
	at[end], size[end] = 8*p, left

	b := bitstream.NewBitStream(d)
	b.Position = 8 * start
	t := &TileGroup{}
	ok := vk.Try(func() { t.build(sz, &b, s, uh, sh) })
	vk.Assert(ok, "no failure")

	k := 0
	step := func(what int) gStep {
		g := got[k]
		vk.Assert(k < n && g.what == what, "steps in order")
		k++
		return g
	}
	if first == 0 {
		step(4)
	}
	for i := first; i <= end; i++ {
		g := step(1)
		vk.Assert(g.tile == i, "tiles in order")
		vk.Assert(g.pos == at[i], "where the data of a tile starts")
		vk.Assert(g.size == size[i], "size of the data of a tile")
		h := step(2)
		vk.Assert(h.tile == i, "a tile is decoded under its number")
		vk.Assert(vk.And(h.rs == s.MiRowStarts[i/cols], h.re == s.MiRowStarts[i/cols+1]), "rows of a tile")
		vk.Assert(vk.And(h.cs == s.MiColStarts[i%cols], h.ce == s.MiColStarts[i%cols+1]), "columns of a tile")
		vk.Assert(h.q == uh.BaseQIdx, "every tile starts from the base quantizer")
		vk.Assert(step(3).tile == i, "a tile is ended under its number")
	}
	whole := end == rows*cols-1
	if whole {
		if !uh.DisableFrameEndUpdateCdf {
			step(5)
		}
		step(6)
	}
	vk.Assert(k == n, "a step too many")
	vk.Assert(s.SeenFrameHeader == !whole, "the frame ends with its last tile")
	vk.Assert(b.Position == 8*(start+sz), "the group ends where its size says")
	vk.Reach("end")
}

//verif:bounds one tile, groups of up to 15 bytes
func VerifG01_one() { tileGroup(1, 1) }

//verif:bounds two tiles in a row or column, groups of up to 15 bytes, every start and end, size fields of 1 to 4 bytes
func VerifG01_two() {
	if vk.SplitBool("tall", vk.Bool("tall")) {
		tileGroup(2, 1)
	} else {
		tileGroup(1, 2)
	}
}

//verif:bounds 2x2, 1x3 and 3x2 (thorough) tiles, groups of up to 15 bytes, every start and end, size fields of 1 and 2 bytes, tiles of up to 3 bytes before the last (4 and 14 thorough)
//verif:time 300
func VerifG01_four() {
	most := 1
	if vk.Thorough() {
		most = 2
	}
	switch vk.Split("shape", vk.Int("shape", 0, most), 0, most) {
	case 0:
		tileGroup(2, 2)
	case 1:
		tileGroup(1, 3)
	default:
		tileGroup(3, 2)
	}
}
