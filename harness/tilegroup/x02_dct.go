package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:bounds 4 points, every 20-bit input, no clipping
//verif:guess 24
func VerifX02_dct4() { oneDim(0, 2, 40) }

//verif:bounds 8 points, every 20-bit input, no clipping
//verif:guess 24
func VerifX02_dct8() { oneDim(0, 3, 40) }

//verif:bounds 16 points, every 20-bit input, no clipping
//verif:guess 24
func VerifX02_dct16() { oneDim(0, 4, 40) }

//verif:bounds 32 points, every 20-bit input, no clipping
//verif:guess 24
func VerifX02_dct32() { oneDim(0, 5, 40) }

//verif:bounds 64 points, every 20-bit input, no clipping
//verif:guess 24
func VerifX02_dct64() { oneDim(0, 6, 40) }

//verif:bounds 4 points, every 16-bit input, clipped to 16 bits
//verif:guess 24
func VerifX02_clip4() { oneDim(0, 2, 16) }

//verif:bounds 8 points, every 16-bit input, clipped to 16 bits
//verif:guess 24
func VerifX02_clip8() { oneDim(0, 3, 16) }

//verif:bounds 16 points, every 16-bit input, clipped to 16 bits
//verif:guess 24
func VerifX02_clip16() { oneDim(0, 4, 16) }

//verif:bounds 32 points, every 16-bit input, clipped to 16 bits
//verif:guess 24
func VerifX02_clip32() { oneDim(0, 5, 16) }

//verif:bounds 64 points, every 16-bit input, clipped to 16 bits
//verif:guess 24
func VerifX02_clip64() { oneDim(0, 6, 16) }

//verif:bounds every limit and value below 2^40
func VerifX02_limit() {
	lo, hi, x := vk.Int("lo", -(1<<40), 1<<40), vk.Int("hi", -(1<<40), 1<<40), vk.Int("x", -(1<<40), 1<<40)
	vk.Assume(lo <= hi)
	got := util.Clip3(lo, hi, x)
	want := vk.Ite(x < lo, lo, vk.Ite(hi < x, hi, x))
	vk.Assert(got == want, "limited value")
	vk.Reach("end")
}
