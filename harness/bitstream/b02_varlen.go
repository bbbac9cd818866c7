package bitstream

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds buffers of 11 bytes, every start position 0..7, 0..38 leading zeros
func VerifB02_uvlc() {
	d := vk.Bytes("d", 11)
	p := vk.Split("p", vk.Int("p", 0, 7), 0, 7)
	lz := vk.Split("lz", vk.Int("lz", 0, 38), 0, 38)
	for i := 0; i < lz; i++ {
		vk.Assume(specBit(d, p+i) == 0)
	}
	vk.Assume(specBit(d, p+lz) == 1)
	b := NewBitStream(d)
	b.Position = p
	v := b.Uvlc()
	if lz >= 32 {
		vk.Assert(v == 4294967295, "uvlc with 32 or more leading zeros is 2^32-1")
		vk.Assert(b.Position == p+lz+1, "uvlc with 32 or more leading zeros consumes only the prefix")
		vk.Reach("long")
	} else {
		want := specF(d, p+lz+1, lz) + (1 << uint(lz)) - 1
		vk.Assert(v == want, "uvlc value")
		vk.Assert(b.Position == p+2*lz+1, "uvlc length")
		vk.Reach("short")
	}
}

//verif:bounds buffers of 10 bytes, every start position 0..7, 1..8 bytes, every continuation pattern
func VerifB02_leb128() {
	d := vk.Bytes("d", 10)
	p := vk.Split("p", vk.Int("p", 0, 7), 0, 7)
	n := vk.Split("n", vk.Int("n", 1, 8), 1, 8)
	want := 0
	for i := 0; i < n; i++ {
		cont := specBit(d, p+8*i) == 1
		if i < n-1 {
			vk.Assume(cont)
		} else if i < 7 {
			vk.Assume(!cont)
		}
		want += specF(d, p+8*i+1, 7) << uint(7*i)
	}
	b := NewBitStream(d)
	b.Position = p
	b.Leb128Bytes = vk.Int("stale", 0, 9)
	v := b.Leb128()
	vk.Assert(v == want, "leb128 value")
	vk.Assert(b.Leb128Bytes == n, "leb128 records the number of bytes read")
	vk.Assert(b.Position == p+8*n, "leb128 length")
	vk.Reach("end")
}

//verif:bounds buffers of 9 bytes, every start position 0..7, 0..7 bytes
func VerifB02_le() {
	d := vk.Bytes("d", 9)
	p := vk.Split("p", vk.Int("p", 0, 7), 0, 7)
	n := vk.Split("n", vk.Int("n", 0, 7), 0, 7)
	want := 0
	for i := 0; i < n; i++ {
		want += specF(d, p+8*i, 8) << uint(8*i)
	}
	b := NewBitStream(d)
	b.Position = p
	v := b.Le(n)
	vk.Assert(v == want, "le(n) is little-endian")
	vk.Assert(b.Position == p+8*n, "le(n) length")
	vk.Reach("end")
}
