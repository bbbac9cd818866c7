package symbol

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

type decoder struct {
	n     int
	cdf   []int // the live table
	old   []int // its values before the read
	d     []byte
	st    state.State
	b     bitstream.BitStream
	uh    uncompressedheader.UncompressedHeader
	rng   int
	val   int
	max   int
	start int
}

// bound is the lower end of a symbol's sub-interval of [0, rng): c is its
// table entry and left the number of symbols after it.
func bound(rng, c, left int) int {
	if left == 0 {
		return 0
	}
	return vk.Cut("b", (rng>>8*((1<<15-c)>>6))>>1) + 4*left
}

// arbitrary is any decoder state in range with any table of n symbols that
// increases up to the symbol sym, whose sub-interval holds the value.
func arbitrary(n, sym, maxBits int) (x *decoder, lo, hi int) {
	x = &decoder{n: n}
	x.cdf = vk.Ints("cdf", n+1, 1, 1<<15)
	x.cdf[n-1] = 1 << 15
	x.cdf[n] = vk.Int("count", 0, 32)
	x.old = append([]int{}, x.cdf...)
	x.rng = vk.Int("range", 1<<15, 1<<16-1)
	x.val = vk.Int("value", 0, 1<<16-1)
	vk.Assume(x.val < x.rng)
	hi = x.rng
	for i := 0; ; i++ {
		lo = bound(x.rng, x.cdf[i], n-i-1)
		if i == sym {
			break
		}
		// the value lies below every earlier sub-interval
		vk.Assume(x.cdf[i] < x.cdf[i+1])
		vk.Assume(x.val < lo)
		hi = lo
	}
	vk.Assume(x.val >= lo)
	x.max = maxBits
	x.st = state.State{SymbolRange: x.rng, SymbolValue: x.val, SymbolMaxBits: maxBits}
	x.d = vk.Bytes("d", 4)
	x.b = bitstream.NewBitStream(x.d)
	x.start = 3
	x.b.Position = x.start
	x.uh.DisableCdfUpdate = vk.Bool("noupdate")
	return x, lo, hi
}

// pick chooses an alphabet size and a symbol.
func pick(sizes []int) (n, sym int) {
	n = sizes[vk.Split("size", vk.Int("size", 0, len(sizes)-1), 0, len(sizes)-1)]
	return n, vk.Split("sym", vk.IntAt("sym", n, 0, n-1), 0, n-1)
}

// scale is the renormalisation shift of an interval width.
func scale(width int) int {
	bits := vk.Split("bits", vk.Int("bits", 0, 13), 0, 13)
	vk.Assume(vk.And(width<<uint(bits) >= 1<<15, width<<uint(bits) < 1<<16))
	return bits
}
