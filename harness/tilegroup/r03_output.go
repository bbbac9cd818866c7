package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:bounds pictures of up to 9x9 samples in every format, from the frame or from each slot; without operating points and film grain
//verif:time 300
func VerifR03_output() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	rFormat(&sh)
	sx, sy := 0, 0
	if sh.ColorConfig.SubsamplingX {
		sx = 1
	}
	if sh.ColorConfig.SubsamplingY {
		sy = 1
	}
	w, h := vk.Split("w", vk.Int("w", 1, 9), 1, 9), vk.Split("h", vk.Int("h", 1, 9), 1, 9)
	existing := vk.SplitBool("existing", vk.Bool("existing"))
	sh.FilmGrainParamsPresent = vk.SplitBool("grain", vk.Bool("grain"))
	uh.UpscaledWidth, uh.FrameHeight = w, h
	uh.FrameWidth = (w + 1) / 2
	s.LrFrame = state.NewFrame(10, 10)
	for p, name := range [3]string{"y", "u", "v"} {
		for i := 0; i < 100; i++ {
			s.LrFrame[p][i/10][i%10] = vk.IntAt(name, i, 0, 4095)
		}
	}
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = depth
	if existing {
		slot := vk.Split("slot", vk.Int("slot", 0, 7), 0, 7)
		vk.Assume(slot == 0 || slot == 5 || w == 3)
		vk.Assume(slot%3 == depth/2-4)
		uh.ShowExistingFrame = true
		uh.FrameToShowMapIdx = slot
		for i := 0; i < 8; i++ {
			s.RefUpscaledWidth[i], s.RefFrameHeight[i] = 1, 1
			s.RefFrameWidth[i] = 1
			s.FrameStore[i] = s.LrFrame
		}
		s.LrFrame = state.NewFrame(10, 10)
		s.FrameStore[(slot+1)%8] = s.LrFrame
		s.RefUpscaledWidth[slot], s.RefFrameHeight[slot] = w, h
		s.RefFrameWidth[slot] = (w + 1) / 2
		s.RefSubsamplingX[slot], s.RefSubsamplingY[slot] = sx, sy
		s.RefBitDepth[slot] = depth
		uh.UpscaledWidth, uh.FrameHeight = 2, 2
	}
	before := [2]state.Frame{s.LrFrame, s.FrameStore[0]}
	ok := vk.Try(func() { t.outputProcess(s, uh, sh) })
	vk.Assert(ok, "no failure")
	names := [3]string{"y", "u", "v"}
	for p, out := range [3][][]int{t.OutY, t.OutU, t.OutV} {
		pw, ph := w, h
		if p > 0 {
			pw, ph = (w+sx)>>sx, (h+sy)>>sy
			if sh.ColorConfig.NumPlanes == 1 {
				pw, ph = 0, 0
			}
		}
		vk.Assert(len(out) == ph, "height")
		for y := 0; y < ph; y++ {
			vk.Assert(len(out[y]) == pw, "width")
			for x := 0; x < pw; x++ {
				vk.Assert(out[y][x] == vk.IntAt(names[p], y*10+x, 0, 4095), "samples")
			}
		}
	}
	// The output is a copy.
	t.OutY[0][0] = 99999
	vk.Assert(before[0][0][0][0] != 99999 && (!existing || before[1][0][0][0] != 99999), "frames stay")
	vk.Reach("end")
}

// rFormat is 4:2:0, 4:2:2, 4:4:4 or monochrome.
func rFormat(sh *sequenceheader.SequenceHeader) (sx, sy int) {
	f := vk.Split("format", vk.Int("format", 0, 3), 0, 3)
	sh.ColorConfig.NumPlanes = 3
	switch f {
	case 0:
		sx, sy = 1, 1
	case 1:
		sx = 1
	case 3:
		sx, sy = 1, 1
		sh.ColorConfig.NumPlanes = 1
		sh.ColorConfig.MonoChrome = true
	}
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = sx == 1, sy == 1
	return sx, sy
}
