package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/tilegroup loopFilter
//verif:hook internal/tilegroup cdefProcess
//verif:hook internal/tilegroup upscalingProcess
//verif:hook internal/tilegroup loopRestoration
//verif:hook internal/tilegroup referenceFrameLoadingProcess
//verif:hook internal/tilegroup referenceFrameUpdate
//verif:hook internal/tilegroup outputProcess

// rSteps replaces the steps at the end of a frame by additions to samples of
// 2x1 frames that no other order of steps gives.
func rSteps(t *TileGroup, s *state.State, load, update, out *int) {
	step := func(f state.Frame, p, n int) { f[p][0][0] = f[p][0][0]*10 + n }
	VerifHook_loopFilter = func(t *TileGroup, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		step(s.CurrFrame, 0, 1)
	}
	VerifHook_cdefProcess = func(t *TileGroup, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		s.CdefFrame = s.CurrFrame.Clone()
		step(s.CdefFrame, 0, 2)
	}
	VerifHook_upscalingProcess = func(t *TileGroup, f state.Frame, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) state.Frame {
		f = f.Clone()
		step(f, 0, 3)
		return f
	}
	VerifHook_loopRestoration = func(t *TileGroup, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		s.LrFrame = s.UpscaledCdefFrame.Clone()
		step(s.LrFrame, 0, 4)
		s.LrFrame[1][0][0] = s.UpscaledCurrFrame[0][0][0]
	}
	VerifHook_referenceFrameLoadingProcess = func(t *TileGroup, s *state.State, u *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
		*load = *load + 1
		u.OrderHint = 77
		sh.ColorConfig.BitDepth = 12
		step(s.LrFrame, 0, 5)
	}
	VerifHook_referenceFrameUpdate = func(t *TileGroup, s *state.State, u uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		*update = *update*100000 + s.LrFrame[0][0][0]
		vk.Assert(*load == 0 || u.OrderHint == 77 && sh.ColorConfig.BitDepth == 12, "loaded parameters are stored")
		vk.Assert(*load == 1 || u.OrderHint == 3 && sh.ColorConfig.BitDepth == 8, "parameters of the frame are stored")
		vk.Assert(*out == 0, "stored before output")
	}
	VerifHook_outputProcess = func(t *TileGroup, s *state.State, u uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		*out = *out + 1
	}
}

//verif:bounds every combination of filter levels, frame kind, segmentation flags and showing; 2x3 units of 4 samples
func VerifR01_order() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	var load, update, out int
	vk.Pin(&load)
	vk.Pin(&update)
	vk.Pin(&out)
	rSteps(t, s, &load, &update, &out)
	s.CurrFrame, s.CdefFrame, s.LrFrame = state.NewFrame(2, 1), state.NewFrame(2, 1), state.NewFrame(2, 1)
	s.LrFrame[0][0][0] = 9
	uh.OrderHint = 3
	sh.ColorConfig.BitDepth = 8
	uh.ShowExistingFrame = vk.SplitBool("existing", vk.Bool("existing"))
	uh.ShowFrame = vk.SplitBool("show", vk.Bool("show"))
	uh.FrameType = vk.Split("type", vk.Int("type", 0, 3), 0, 3)
	l0, l1 := vk.Int("l0", 0, 63), vk.Int("l1", 0, 63)
	uh.LoopFilterLevel = [4]int{l0, l1, vk.Int("l2", 0, 63), vk.Int("l3", 0, 63)}
	filter := vk.SplitBool("filter", vk.Or(l0 != 0, l1 != 0))
	uh.SegmentationEnabled = vk.SplitBool("seg", vk.Bool("seg"))
	uh.SegmentationUpdateMap = vk.Split("map", vk.Int("map", 0, 1), 0, 1)
	s.MiRows, s.MiCols = 2, 3
	s.PrevSegmentIds = make([][]int, 2)
	for i := 0; i < 2; i++ {
		s.PrevSegmentIds[i] = make([]int, 3)
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 4; j++ {
			t.SegmentIds[i][j] = vk.IntAt("now", i*4+j, 0, 7)
			if i < 2 && j < 3 {
				s.PrevSegmentIds[i][j] = vk.IntAt("before", i*4+j, 0, 7)
			}
		}
	}
	ok := vk.Try(func() { t.decodeFrameWrapup(s, uh, sh) })
	vk.Assert(ok, "no failure")
	want := 9
	if !uh.ShowExistingFrame {
		want = 234
		before := 3
		if filter {
			want, before = 1234, 13
		}
		vk.Assert(s.LrFrame[1][0][0] == before, "restoration knows the samples before the directional filter")
		vk.Reach("new")
	} else if uh.FrameType == 0 {
		want = 95
		vk.Reach("key")
	}
	vk.Assert(update == want, "the finished frame is stored once")
	show := 0
	if uh.ShowFrame || uh.ShowExistingFrame {
		show = 1
	}
	vk.Assert(out == show, "shown frames are output once")
	keep := uh.SegmentationEnabled && uh.SegmentationUpdateMap == 0 && !uh.ShowExistingFrame
	for i := 0; i < 3; i++ {
		for j := 0; j < 4; j++ {
			v := vk.IntAt("now", i*4+j, 0, 7)
			if keep && i < 2 && j < 3 {
				v = vk.IntAt("before", i*4+j, 0, 7)
			}
			vk.Assert(t.SegmentIds[i][j] == v, "segments")
		}
	}
	vk.Reach("end")
}
