package obu

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

// parse runs NewObu over d with the given OBU type, flags and payload size in
// place; it returns the OBU and the expected end in bits.
func parse(d []byte, typ int, ext, sized bool, size int, st *state.State) (Obu, *bitstream.BitStream, int) {
	d[0] = byte(typ<<3) | d[0]&0x81
	p := 1
	if ext {
		d[0] |= 4
		p++
	}
	sz := p + size
	if sized {
		d[0] |= 2
		d[p] = byte(size)
		p++
		// the caller's length is ignored in favour of the coded size
		sz = vk.Int("sz", 0, 100)
	}
	b := bitstream.NewBitStream(d)
	o := NewObu(sz, st, &b, sequenceheader.SequenceHeader{}, uncompressedheader.UncompressedHeader{})
	return o, &b, (p + size) * 8
}

//verif:bounds payloads of 0..5 bytes (0..9 thorough), with and without extension and size field, every operating point mask
func VerifO02_padding() {
	max := 5
	if vk.Thorough() {
		max = 9
	}
	d := vk.Bytes("d", 16)
	size := vk.Split("size", vk.Int("size", 0, max), 0, max)
	ext := vk.SplitBool("ext", vk.Bool("ext"))
	sized := vk.SplitBool("sized", vk.Bool("sized"))
	st := state.State{OperatingPointIdc: vk.Int("idc", 0, 4095), SeenFrameHeader: vk.Bool("seen")}
	seen, idc := st.SeenFrameHeader, st.OperatingPointIdc
	if size > 0 {
		any := false
		p := 1 + vk.Ite(ext, 1, 0) + vk.Ite(sized, 1, 0)
		for i := 0; i < size; i++ {
			any = vk.Or(any, d[p+i] != 0)
		}
		vk.Assume(any)
	}
	_, b, end := parse(d, header.OBU_PADDING, ext, sized, size, &st)
	vk.Assert(b.Position == end, "padding ends at its declared size")
	vk.Assert(vk.And(st.SeenFrameHeader == seen, st.OperatingPointIdc == idc), "padding leaves the decoding state alone")
	vk.Reach("end")
}

//verif:bounds payloads of 0..5 bytes, every metadata and reserved type
func VerifO02_ignored() {
	d := vk.Bytes("d", 12)
	size := vk.Split("size", vk.Int("size", 0, 5), 0, 5)
	typ := vk.Split("typ", vk.Int("typ", 0, 14), 0, 14)
	vk.Assume(typ == 0 || typ == header.OBU_METADATA || typ >= 9)
	ext := vk.SplitBool("ext", vk.Bool("ext"))
	sized := vk.SplitBool("sized", vk.Bool("sized"))
	st := state.State{OperatingPointIdc: vk.Int("idc", 0, 4095), SeenFrameHeader: vk.Bool("seen")}
	seen, idc := st.SeenFrameHeader, st.OperatingPointIdc
	_, b, end := parse(d, typ, ext, sized, size, &st)
	vk.Assert(b.Position == end, "skipped OBU ends at its declared size")
	vk.Assert(vk.And(st.SeenFrameHeader == seen, st.OperatingPointIdc == idc), "skipped OBU leaves the decoding state alone")
	vk.Reach("end")
}

//verif:bounds payloads of 0..5 bytes of every type, every layer pair and operating point mask that excludes the layer
func VerifO02_dropped() {
	d := vk.Bytes("d", 12)
	size := vk.Split("size", vk.Int("size", 0, 5), 0, 5)
	typ := vk.Split("typ", vk.Int("typ", 0, 15), 0, 15)
	vk.Assume(typ != header.OBU_SEQUENCE_HEADER && typ != header.OBU_TEMPORAL_DELIMITER)
	sized := vk.SplitBool("sized", vk.Bool("sized"))
	st := state.State{OperatingPointIdc: vk.Int("idc", 1, 4095), SeenFrameHeader: vk.Bool("seen"), TileNum: 5}
	seen, idc := st.SeenFrameHeader, st.OperatingPointIdc
	t := vk.Split("t", int(d[1])>>5, 0, 7)
	s := vk.Split("s", int(d[1])>>3&3, 0, 3)
	inT := idc>>uint(t)&1 == 1
	inS := idc>>uint(8+s)&1 == 1
	vk.Assume(!vk.And(inT, inS))
	o, b, end := parse(d, typ, true, sized, size, &st)
	vk.Assert(b.Position == end, "dropped OBU ends at its declared size")
	vk.Assert(vk.And(st.SeenFrameHeader == seen, st.OperatingPointIdc == idc), "dropped OBU leaves the decoding state alone")
	vk.Assert(st.TileNum == 5, "dropped OBU leaves the tile position alone")
	vk.Assert(o.Header.Type == typ, "dropped OBU keeps its header")
	vk.Reach("end")
}

//verif:bounds payloads of 0..5 bytes, layers inside the operating point, all masks
func VerifO02_delimiter() {
	d := vk.Bytes("d", 12)
	size := vk.Split("size", vk.Int("size", 0, 5), 0, 5)
	ext := vk.SplitBool("ext", vk.Bool("ext"))
	sized := vk.SplitBool("sized", vk.Bool("sized"))
	st := state.State{OperatingPointIdc: vk.Int("idc", 0, 4095), SeenFrameHeader: vk.Bool("seen")}
	idc := st.OperatingPointIdc
	_, b, end := parse(d, header.OBU_TEMPORAL_DELIMITER, ext, sized, size, &st)
	vk.Assert(b.Position == end, "temporal delimiter ends at its declared size")
	vk.Assert(!st.SeenFrameHeader, "a temporal delimiter starts a new frame header in every layer")
	vk.Assert(st.OperatingPointIdc == idc, "a temporal delimiter keeps the operating point")
	vk.Reach("end")
}

// sequence is a minimal sequence header payload with one operating point.
func sequence(idc int) []byte {
	return []byte{0, byte(idc >> 8), byte(idc), 0, 0, 0, 0xc0, 0x04}
}

//verif:bounds one sequence header layout, any first operating point, 0..3 further payload bytes, every previous mask and layer
func VerifO02_sequence() {
	d := vk.Bytes("d", 16)
	extra := vk.Split("extra", vk.Int("extra", 0, 3), 0, 3)
	ext := vk.SplitBool("ext", vk.Bool("ext"))
	sized := vk.SplitBool("sized", vk.Bool("sized"))
	st := state.State{OperatingPointIdc: vk.Int("old", 0, 4095)}
	idc := vk.Int("idc", 0, 4095)
	p := 1 + vk.Ite(ext, 1, 0) + vk.Ite(sized, 1, 0)
	copy(d[p:], sequence(idc))
	o, b, end := parse(d, header.OBU_SEQUENCE_HEADER, ext, sized, 8+extra, &st)
	vk.Assert(b.Position == end, "sequence header ends at its declared size")
	vk.Assert(st.OperatingPointIdc == idc, "a sequence header is never dropped and selects its operating point")
	vk.Assert(o.SequenceHeader.OperatingPointIdc[0] == idc, "the sequence header is handed on")
	vk.Reach("end")
}
