package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

//verif:bounds tile sizes 1..40 bytes, every content; tables of every kind with two rows of arbitrary values
func VerifE04_start() {
	d := vk.Bytes("d", 3)
	sz := vk.Int("sz", 1, 40)
	var s, old state.State
	fill(&s, "p")
	fill(&old, "p")
	var t TileGroup
	b := bitstream.NewBitStream(d)
	short := vk.SplitBool("short", sz == 1)
	t.initSymbol(sz, &b, &s)
	n := 15
	if short {
		n = 8
	}
	r := vkspec.R{D: d}
	v := r.F(n) << uint(15-n)
	vk.Assert(s.SymbolValue == 1<<15-1-v, "the value is the inverted start of the data")
	vk.Assert(s.SymbolRange == 1<<15, "the range is full")
	vk.Assert(s.SymbolMaxBits == 8*sz-15, "bits left")
	vk.Assert(b.Position == n, "consumed bits")
	var want state.State
	fill(&want, "p")
	tileOf(&want)
	clearTile(&want)
	sameTile(&s, &want, "of a tile start from the frame's with counters at zero")
	scribbleTile(&s)
	sameFrame(&s, &old, "of the frame are not changed by adaptation in a tile")
	vk.Reach("end")
}

//verif:bounds every remaining bit count -14..300, tile number and context tile 0..5, tables of every kind with two rows of arbitrary values
func VerifE04_end() {
	var s, old state.State
	fillTile(&s, "t")
	fillSaved(&s, "s")
	fillTile(&old, "t")
	fillSaved(&old, "s")
	s.SymbolMaxBits = vk.Int("left", -14, 300)
	s.TileNum = vk.Int("tile", 0, 5)
	var u uncompressedheader.UncompressedHeader
	u.DisableFrameEndUpdateCdf = vk.SplitBool("disable", vk.Bool("disable"))
	u.TileInfo.ContextUpdateTileId = vk.Int("context", 0, 5)
	same := vk.SplitBool("same", s.TileNum == u.TileInfo.ContextUpdateTileId)
	left := s.SymbolMaxBits
	var t TileGroup
	b := bitstream.NewBitStream(nil)
	b.Position = vk.Int("pos", 0, 1<<20)
	p := b.Position
	t.exitSymbol(&b, &s, u)
	vk.Assert(b.Position == p+vk.Ite(left > 0, left, 0), "the rest of the tile is skipped")
	if same && !u.DisableFrameEndUpdateCdf {
		savedIsTile(&s, &old, "of the context tile are saved")
	} else {
		sameSaved(&s, &old, "are saved only from the context tile")
	}
	vk.Reach("end")
}

//verif:bounds tables of every kind with two rows of arbitrary values
func VerifE04_frame() {
	var s, old state.State
	fill(&s, "p")
	fillSaved(&s, "s")
	fillSaved(&old, "s")
	var t TileGroup
	t.frameEndUpdateCdf(&s)
	frameIsSaved(&s, &old, "of the frame become the saved ones")
	vk.Reach("end")
}
