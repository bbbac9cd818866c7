package bitstream

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds buffers of 8 bytes, every position 0..56
func VerifB04_align() {
	d := vk.Bytes("d", 8)
	p := vk.Split("p", vk.Int("p", 0, 56), 0, 56)
	b := NewBitStream(d)
	b.Position = p
	b.ByteAlignment()
	vk.Assert(b.Position == (p+7)/8*8, "alignment moves to the next byte boundary")
	vk.Reach("end")
}

//verif:bounds buffers of 8 bytes, every position 0..15, every count 1..48
func VerifB04_trailing() {
	d := vk.Bytes("d", 8)
	p := vk.Split("p", vk.Int("p", 0, 15), 0, 15)
	n := vk.Split("n", vk.Int("n", 1, 48), 1, 48)
	b := NewBitStream(d)
	b.Position = p
	b.TrailingBits(n)
	vk.Assert(b.Position == p+n, "trailing bits consume exactly the padding")
	vk.Reach("end")
}

//verif:bounds buffers of 0..8 bytes, every position up to the end
func VerifB04_more() {
	l := vk.Split("l", vk.Int("l", 0, 8), 0, 8)
	d := vk.Bytes("d", l)
	p := vk.Int("p", 0, 64)
	vk.Assume(p <= 8*l)
	b := NewBitStream(d)
	b.Position = p
	vk.Assert(b.MoreDataInBistream() == (p < 8*l), "more data is reported exactly while unread bits remain")
	vk.Assert(b.Position == p, "asking for more data does not move the position")
	vk.Reach("end")
}
