package util

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds |x| < 2^40, shifts 0..20
func VerifU01_round() {
	x := vk.Int("x", -(1 << 40), 1<<40)
	n := vk.Split("n", vk.Int("n", 0, 20), 0, 20)
	s := 1 << uint(n)
	r := Round2(x, n)
	// r is the integer with 2^n*r nearest to x, halves rounded up
	vk.Assert(2*s*r <= 2*x+s, "Round2 is not above the nearest multiple")
	vk.Assert(2*x < 2*s*r+s || n == 0, "Round2 is not below the nearest multiple")
	q := Round2Signed(x, n)
	a := x
	if x < 0 {
		a = -x
	}
	g := q
	if x < 0 {
		g = -q
	}
	vk.Assert(g >= 0, "Round2Signed keeps the sign")
	vk.Assert(2*s*g <= 2*a+s, "Round2Signed magnitude is not above the nearest multiple")
	vk.Assert(2*a < 2*s*g+s || n == 0, "Round2Signed magnitude is not below the nearest multiple")
	vk.Reach("end")
}

//verif:bounds all 33-bit signed values, bit depths 1..16
func VerifU01_clip() {
	lo := vk.Int("lo", -(1 << 32), 1<<32)
	hi := vk.Int("hi", -(1 << 32), 1<<32)
	x := vk.Int("x", -(1 << 32), 1<<32)
	vk.Assume(lo <= hi)
	c := Clip3(lo, hi, x)
	vk.Assert(vk.And(c >= lo, c <= hi), "Clip3 stays in the range")
	vk.Assert(vk.Imp(vk.And(x >= lo, x <= hi), c == x), "Clip3 keeps values inside the range")
	vk.Assert(vk.Imp(x < lo, c == lo), "Clip3 raises to the lower bound")
	vk.Assert(vk.Imp(x > hi, c == hi), "Clip3 lowers to the upper bound")
	d := vk.Split("d", vk.Int("d", 1, 16), 1, 16)
	e := Clip1(x, d)
	m := 1<<uint(d) - 1
	vk.Assert(vk.And(e >= 0, e <= m), "Clip1 yields a sample of the bit depth")
	vk.Assert(vk.Imp(vk.And(x >= 0, x <= m), e == x), "Clip1 keeps samples")
	vk.Assert(vk.Imp(x < 0, e == 0), "Clip1 raises to zero")
	vk.Assert(vk.Imp(x > m, e == m), "Clip1 lowers to the maximum sample")
	vk.Reach("end")
}

//verif:bounds all non-negative 31-bit values
func VerifU01_logs() {
	x := vk.Int("x", 1, 1<<31-1)
	f := FloorLog2(x)
	vk.Assert(vk.And(f >= 0, f <= 30), "FloorLog2 range")
	vk.Assert(1<<uint(f) <= x, "2^FloorLog2(x) <= x")
	vk.Assert(x < 2<<uint(f), "x < 2^(FloorLog2(x)+1)")
	y := vk.Int("y", 0, 1<<30)
	c := CeilLog2(y)
	vk.Assert(vk.And(c >= 0, c <= 30), "CeilLog2 range")
	vk.Assert(1<<uint(c) >= y, "2^CeilLog2(x) >= x")
	vk.Assert(c == 0 || 1<<uint(c-1) < y, "CeilLog2 is the smallest exponent")
	vk.Reach("end")
}

//verif:bounds block sizes 1..64, targets up to 2^20
func VerifU01_tilelog2() {
	s := vk.Split("s", vk.Int("s", 1, 64), 1, 64)
	t := vk.Int("t", 0, 1<<20)
	k := TileLog2(s, t)
	vk.Assert(vk.And(k >= 0, k <= 20), "TileLog2 range")
	vk.Assert(s<<uint(k) >= t, "TileLog2 reaches the target")
	vk.Assert(k == 0 || s<<uint(k-1) < t, "TileLog2 is the smallest exponent")
	vk.Reach("end")
}

//verif:bounds all 40-bit signed values; restoration unit sizes 32,64,128,256 and frame sizes up to 65536
func VerifU01_misc() {
	x := vk.Int("x", -(1 << 40), 1<<40)
	y := vk.Int("y", -(1 << 40), 1<<40)
	mn, mx, ab := Min(x, y), Max(x, y), Abs(x)
	vk.Assert(vk.And(mn <= x, mn <= y), "Min is a lower bound")
	vk.Assert(vk.Or(mn == x, mn == y), "Min is one of its arguments")
	vk.Assert(vk.And(mx >= x, mx >= y), "Max is an upper bound")
	vk.Assert(vk.Or(mx == x, mx == y), "Max is one of its arguments")
	vk.Assert(vk.And(ab >= 0, vk.Or(ab == x, ab == -x)), "Abs")
	u := 32 << uint(vk.Split("u", vk.Int("u", 0, 3), 0, 3))
	s := vk.Int("s", 1, 65536)
	n := CountUnitsInFrame(u, s)
	vk.Assert(n >= 1, "at least one unit per frame")
	// each unit is the nominal size except the last, which covers 0.5 to 1.5
	// nominal sizes (a smaller frame is one unit)
	vk.Assert(2*s < 2*n*u+u, "last unit is shorter than one and a half nominal sizes")
	vk.Assert(n == 1 || 2*s >= 2*n*u-u, "last unit is at least half a nominal size")
	vk.Reach("end")
}
