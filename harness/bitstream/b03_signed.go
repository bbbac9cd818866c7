package bitstream

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds buffers of 6 bytes, every start position 0..7, widths 1..33
func VerifB03_su() {
	d := vk.Bytes("d", 6)
	p := vk.Split("p", vk.Int("p", 0, 7), 0, 7)
	n := vk.Split("n", vk.Int("n", 1, 33), 1, 33)
	b := NewBitStream(d)
	b.Position = p
	v := b.Su(n)
	// two's complement of n bits
	want := specF(d, p+1, n-1) - specBit(d, p)<<uint(n-1)
	vk.Assert(v == want, "su(n) is the two's complement value")
	vk.Assert(b.Position == p+n, "su(n) length")
	vk.Reach("end")
}

//verif:bounds buffers of 5 bytes, every start position 0..7, alphabet sizes 1..80 (quick) and 1..1100 (thorough)
//verif:loop 2000
func VerifB03_ns() {
	d := vk.Bytes("d", 5)
	p := vk.Split("p", vk.Int("p", 0, 7), 0, 7)
	hi := 80
	if vk.Thorough() {
		hi = 1100
	}
	n := vk.Split("n", vk.Int("n", 1, hi), 1, hi)
	b := NewBitStream(d)
	b.Position = p
	v := b.Ns(n)
	// The non-symmetric code is the truncated binary code: with w the bit
	// length of n, the first 2^w-n values use w-1 bits and the others w.
	w := 0
	for x := n; x > 0; x >>= 1 {
		w++
	}
	short := 1<<uint(w) - n
	head := specF(d, p, w-1)
	if head < short {
		vk.Assert(v == head, "ns(n) short code value")
		vk.Assert(b.Position == p+w-1, "ns(n) short code length")
	} else {
		vk.Assert(v == specF(d, p, w)-short, "ns(n) long code value")
		vk.Assert(b.Position == p+w, "ns(n) long code length")
	}
	// Canonical truncated binary codewords stay inside the alphabet.
	vk.Assert(v >= 0, "ns(n) is not negative")
	vk.Assert(v < n, "ns(n) is below n")
	vk.Reach("end")
}
