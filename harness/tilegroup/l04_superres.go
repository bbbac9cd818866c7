package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/util Clip1

// Filters for the first half of the positions between two samples; the
// others are mirror images.
var lUpscale = [33][8]int{
	{0, 0, 0, 128, 0, 0, 0, 0}, {0, 0, -1, 128, 2, -1, 0, 0},
	{0, 1, -3, 127, 4, -2, 1, 0}, {0, 1, -4, 127, 6, -3, 1, 0},
	{0, 2, -6, 126, 8, -3, 1, 0}, {0, 2, -7, 125, 11, -4, 1, 0},
	{-1, 2, -8, 125, 13, -5, 2, 0}, {-1, 3, -9, 124, 15, -6, 2, 0},
	{-1, 3, -10, 123, 18, -6, 2, -1}, {-1, 3, -11, 122, 20, -7, 3, -1},
	{-1, 4, -12, 121, 22, -8, 3, -1}, {-1, 4, -13, 120, 25, -9, 3, -1},
	{-1, 4, -14, 118, 28, -9, 3, -1}, {-1, 4, -15, 117, 30, -10, 4, -1},
	{-1, 5, -16, 116, 32, -11, 4, -1}, {-1, 5, -16, 114, 35, -12, 4, -1},
	{-1, 5, -17, 112, 38, -12, 4, -1}, {-1, 5, -18, 111, 40, -13, 5, -1},
	{-1, 5, -18, 109, 43, -14, 5, -1}, {-1, 6, -19, 107, 45, -14, 5, -1},
	{-1, 6, -19, 105, 48, -15, 5, -1}, {-1, 6, -19, 103, 51, -16, 5, -1},
	{-1, 6, -20, 101, 53, -16, 6, -1}, {-1, 6, -20, 99, 56, -17, 6, -1},
	{-1, 6, -20, 97, 58, -17, 6, -1}, {-1, 6, -20, 95, 61, -18, 6, -1},
	{-2, 7, -20, 93, 64, -18, 6, -2}, {-2, 7, -20, 91, 66, -19, 6, -1},
	{-2, 7, -20, 88, 69, -19, 6, -1}, {-2, 7, -20, 86, 71, -19, 6, -1},
	{-2, 7, -20, 84, 74, -20, 7, -2}, {-2, 7, -20, 81, 76, -20, 7, -1},
	{-2, 7, -20, 79, 79, -20, 7, -2},
}

//verif:bounds upscaled widths 16..40 (to 72 thorough), denominators 9 to 16, three formats, two rows of arbitrary samples of 10 bits
//verif:time 300
func VerifL04_upscale() {
	util.VerifHook_Clip1 = lClip1
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	sx, sy := lFormat(&sh)
	sh.ColorConfig.BitDepth = 10
	most := 40
	if vk.Thorough() {
		most = 72
	}
	up := vk.Split("width", vk.Int("width", 16, 72), 16, 72)
	vk.Assume(up <= most)
	vk.Assume(vk.Thorough() || up < 24 || up%7 == 3 || up == 40)
	denom := vk.Split("denom", vk.Int("denom", 9, 16), 9, 16)
	down := (up*8 + denom/2) / denom
	uh.UseSuperRes = true
	uh.UpscaledWidth, uh.FrameWidth, uh.FrameHeight = up, down, 2
	s.MiCols = 2 * ((down + 7) >> 3)
	in := lFrame(s.MiCols*4, 2, "y", "u", "v")
	var out state.Frame
	ok := vk.Try(func() { out = t.upscalingProcess(in, s, sh, uh) })
	vk.Assert(ok, "no failure")
	for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
		x, y := sx, sy
		if p == 0 {
			x, y = 0, 0
		}
		dw, uw := (down+x)>>x, (up+x)>>x
		// Positions in 1/16384 samples; the centres of the frames meet, up
		// to half of the accumulated error.
		step := (dw<<14 + uw/2) / uw
		start := (uw/2-(uw-dw)<<13)/uw + 128 - (uw*step-dw<<14)/2
		// The format keeps only the fraction of the start, one sample to
		// the left.
		start = start&16383 - 16384
		for i := 0; i < (2+y)>>y; i++ {
			for j := 0; j < uw; j++ {
				pos := start + j*step
				f := pos & 16383 >> 8
				sum := 0
				for k := 0; k < 8; k++ {
					w := 0
					if f <= 32 {
						w = lUpscale[f][k]
					} else {
						w = lUpscale[64-f][7-k]
					}
					at := pos>>14 + k - 3
					if at < 0 {
						at = 0
					}
					if at > s.MiCols*4>>x-1 {
						at = s.MiCols*4>>x - 1
					}
					sum += w * in[p][i][at]
				}
				vk.Assert(out[p][i][j] == lClip1((sum+64)>>7, 10), "an upscaled sample")
			}
		}
	}
	vk.Reach("end")
}

//verif:bounds frames of 24x2 samples, every format
func VerifL04_same() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	sx, sy := lFormat(&sh)
	sh.ColorConfig.BitDepth = 12
	uh.UpscaledWidth, uh.FrameWidth, uh.FrameHeight = 23, 23, 2
	s.MiCols = 6
	in := lFrame(24, 2, "y", "u", "v")
	out := t.upscalingProcess(in, s, sh, uh)
	for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
		x, y := sx, sy
		if p == 0 {
			x, y = 0, 0
		}
		for i := 0; i < (2+y)>>y; i++ {
			for j := 0; j < (23+x)>>x; j++ {
				vk.Assert(out[p][i][j] == in[p][i][j], "frames of full width stay")
				out[p][i][j] = 0
			}
		}
		v := vk.IntAt([3]string{"y", "u", "v"}[p], 0, 0, 4095)
		vk.Assert(in[p][0][0] == v, "and are copies")
	}
	vk.Reach("end")
}
