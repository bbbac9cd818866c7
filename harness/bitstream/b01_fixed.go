package bitstream

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds buffers of 9 bytes, every start position 0..7, every width 0..63
func VerifB01_fixed() {
	d := vk.Bytes("d", 9)
	p := vk.Split("p", vk.Int("p", 0, 7), 0, 7)
	n := vk.Split("n", vk.Int("n", 0, 63), 0, 63)
	b := NewBitStream(d)
	b.Position = p
	v := b.F(n)
	vk.Assert(v == specF(d, p, n), "f(n) is the n bits at the position, most significant first")
	vk.Assert(b.Position == p+n, "f(n) advances by n")
	vk.Reach("end")
}
