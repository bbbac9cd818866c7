package header

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

//verif:bounds every 2-byte prefix at every byte position 0..2 of a 5-byte buffer
func VerifO01_header() {
	d := vk.Bytes("d", 5)
	p := 8 * vk.Split("p", vk.Int("p", 0, 2), 0, 2)
	b := bitstream.NewBitStream(d)
	b.Position = p
	h := NewHeader(&b)
	x, y := int(d[p/8]), int(d[p/8+1])
	ext := x&4 != 0
	vk.Assert(h.ForbiddenBit == (x&128 != 0), "forbidden bit")
	vk.Assert(h.Type == x>>3&15, "type")
	vk.Assert(h.ExtensionFlag == ext, "extension flag")
	vk.Assert(h.HasSizeField == (x&2 != 0), "size flag")
	vk.Assert(h.ReservedBit == (x&1 != 0), "reserved bit")
	if ext {
		vk.Assert(h.ExtensionHeader.TemporalID == y>>5, "temporal layer")
		vk.Assert(h.ExtensionHeader.SpatialID == y>>3&3, "spatial layer")
		vk.Assert(h.ExtensionHeader.Reserved3Bits == y&7, "reserved extension bits")
		vk.Assert(b.Position == p+16, "header with extension is two bytes")
		vk.Reach("ext")
	} else {
		vk.Assert(h.ExtensionHeader.TemporalID == 0, "temporal layer defaults to zero")
		vk.Assert(h.ExtensionHeader.SpatialID == 0, "spatial layer defaults to zero")
		vk.Assert(b.Position == p+8, "header without extension is one byte")
		vk.Reach("plain")
	}
	_ = vkspec.B
}
