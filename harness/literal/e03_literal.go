package literal

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

type dec struct {
	rng, val, max, pos int
	d                  []byte
}

// bit decodes one equiprobable bit.
func (x *dec) bit() int {
	cur := x.rng>>8<<7 + 4
	r := 0
	if x.val >= cur {
		x.rng -= cur
		x.val -= cur
	} else {
		r = 1
		x.rng = cur
	}
	for x.rng < 1<<15 {
		x.rng <<= 1
		b := 0
		if x.max > 0 {
			b = int(x.d[x.pos>>3]>>uint(7-x.pos&7)) & 1
			x.pos++
		}
		x.max--
		x.val = (x.val<<1 + 1) ^ b
	}
	return r
}

func (x *dec) lit(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v = v<<1 | x.bit()
	}
	return v
}

func start() (*dec, *state.State, *bitstream.BitStream) {
	x := &dec{d: vk.Bytes("d", 6)}
	x.rng = vk.Int("range", 1<<15, 1<<16-1)
	x.val = vk.Int("value", 0, 1<<16-1)
	vk.Assume(x.val < x.rng)
	x.max = vk.Split("max", vk.Int("max", -1, 2), -1, 2)
	if x.max == 2 {
		x.max = 30
	}
	st := &state.State{SymbolRange: x.rng, SymbolValue: x.val, SymbolMaxBits: x.max}
	b := bitstream.NewBitStream(x.d)
	return x, st, &b
}

func same(x *dec, st *state.State, b *bitstream.BitStream) {
	vk.Assert(st.SymbolRange == x.rng, "range after the literal")
	vk.Assert(st.SymbolValue == x.val, "value after the literal")
	vk.Assert(st.SymbolMaxBits == x.max, "bits left after the literal")
	vk.Assert(b.Position == x.pos, "position after the literal")
	vk.Reach("end")
}

//verif:bounds 0..3 bits (0..8 thorough), every decoder range and value, tile data ending 0, 1 or more bits ahead
//verif:time 600
func VerifE03_literal() {
	x, st, b := start()
	max := 3
	if vk.Thorough() {
		max = 8
	}
	n := vk.Split("n", vk.Int("n", 0, max), 0, max)
	v := L(n, st, b, uncompressedheader.UncompressedHeader{DisableCdfUpdate: vk.Bool("noupdate")})
	vk.Assert(v == x.lit(n), "a literal is its bits, most significant first")
	same(x, st, b)
}

//verif:bounds alphabets of 1..6 values (1..40 thorough), every decoder range and value
//verif:time 600
func VerifE03_nonsymmetric() {
	x, st, b := start()
	max := 6
	if vk.Thorough() {
		max = 40
	}
	n := vk.Split("n", vk.Int("n", 1, max), 1, max)
	v := NS(n, st, b, uncompressedheader.UncompressedHeader{})
	w := vkspec.Log2Floor(n)
	m := 2<<uint(w) - n
	e := x.lit(w)
	if e >= m {
		e = e<<1 - m + x.bit()
	}
	vk.Assert(v == e, "a non-symmetric literal is a truncated binary code")
	vk.Assert(vk.And(v >= 0, v < n), "a non-symmetric literal is below its alphabet size")
	same(x, st, b)
}
