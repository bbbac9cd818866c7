package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/vk"
)

// lFormat is 4:2:0, 4:2:2, 4:4:4 or monochrome.
func lFormat(sh *sequenceheader.SequenceHeader) (sx, sy int) {
	f := vk.Split("format", vk.Int("format", 0, 3), 0, 3)
	sh.ColorConfig.NumPlanes = 3
	switch f {
	case 0:
		sx, sy = 1, 1
	case 1:
		sx = 1
	case 3:
		sx, sy = 1, 1
		sh.ColorConfig.NumPlanes = 1
		sh.ColorConfig.MonoChrome = true
	}
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = sx == 1, sy == 1
	return sx, sy
}

var lTxW = [19]int{4, 8, 16, 32, 64, 4, 8, 8, 16, 16, 32, 32, 64, 4, 16, 8, 32, 16, 64}
var lTxH = [19]int{4, 8, 16, 32, 64, 8, 4, 16, 8, 32, 16, 64, 32, 16, 4, 32, 8, 64, 16}

// Block sizes in samples.
var lW = [22]int{4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 32, 64, 64, 64, 128, 128, 4, 16, 8, 32, 16, 64}
var lH = [22]int{4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 64, 32, 64, 128, 64, 128, 16, 4, 32, 8, 64, 16}

// lFrame fills the planes of a frame with arbitrary samples of 8 + extra bits.
func lFrame(w, h int, names ...string) state.Frame {
	f := state.NewFrame(w, h)
	for p, name := range names {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				f[p][y][x] = vk.IntAt(name, y*w+x, 0, 4095)
			}
		}
	}
	return f
}

func lClip1(x, depth int) int { return vk.Ite(x < 0, 0, vk.Ite(x > 1<<depth-1, 1<<depth-1, x)) }
