package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/uncompressedheader LoadLoopFilterParams
//verif:hook internal/uncompressedheader LoadSegmentationParams
//verif:hook internal/uncompressedheader SaveCdfs
//verif:hook internal/uncompressedheader LoadCdfs

// rName is a parameter of the frame of slot i, or of the current one if i is 8.
func rName(i int, name string, j int) int { return vk.IntAt(name, i*64+j, 0, 65535) }

func rBit(i int, name string) int { return vk.IntAt(name, i, 0, 1) }

// rSlots fills the slots, but not what changes with the size of the frame.
func rSlots(s *state.State) {
	for i := 0; i < 8; i++ {
		s.RefValid[i] = rBit(i, "valid")
		s.RefFrameId[i] = rName(i, "id", 0)
		s.RefUpscaledWidth[i] = rName(i, "uw", 0)
		s.RefFrameWidth[i] = rName(i, "fw", 0)
		s.RefFrameHeight[i] = rName(i, "fh", 0)
		s.RefRenderWidth[i] = rName(i, "rw", 0)
		s.RefRenderHeight[i] = rName(i, "rh", 0)
		s.RefMiCols[i] = 2 + i%3
		s.RefMiRows[i] = 1 + i%4
		s.RefFrameType[i] = rName(i, "type", 0)
		s.RefSubsamplingX[i] = rBit(i, "sx")
		s.RefSubsamplingY[i] = rBit(i, "sy")
		s.RefBitDepth[i] = rName(i, "depth", 0)
		s.RefOrderHint[i] = rName(i, "order", 0)
		for j := 1; j < 8; j++ {
			s.SavedOrderHints[i][j] = rName(i, "hint", j)
			for k := 0; k < 6; k++ {
				s.SavedGmParams[i][j][k] = rName(i, "gm", j*6+k)
			}
		}
		s.FrameStore[i] = rFrame(i)
		for r := 0; r < 5; r++ {
			for c := 0; c < 5; c++ {
				s.SavedRefFrames[i][r][c] = rName(i, "ref", r*5+c)
				s.SavedSegmentIds[i][r][c] = rName(i, "seg", r*5+c)
				s.SavedMvs[i][r][c] = [2]int{rName(i, "mv0", r*5+c), rName(i, "mv1", r*5+c)}
			}
		}
	}
}

func rFrame(i int) state.Frame {
	f := state.NewFrame(2, 2)
	for p := 0; p < 3; p++ {
		for k := 0; k < 4; k++ {
			f[p][k/2][k%2] = rName(i, "sample", p*4+k)
		}
	}
	return f
}

func rSameFrame(f state.Frame, i int, msg string) {
	for p := 0; p < 3; p++ {
		for k := 0; k < 4; k++ {
			vk.Assert(f[p][k/2][k%2] == rName(i, "sample", p*4+k), msg)
		}
	}
}

// rSame compares slot i with the frame named from.  The area of tables that
// the frame covers is rows by cols.
func rSame(s *state.State, i, from, rows, cols int, msg string) {
	if from == 8 {
		vk.Assert(s.RefValid[i] == 1, msg+": valid")
		vk.Assert(s.RefMiCols[i] == cols && s.RefMiRows[i] == rows, msg+": units")
	} else {
		vk.Assert(s.RefValid[i] == rBit(from, "valid"), msg+": valid")
		vk.Assert(s.RefMiCols[i] == 2+from%3 && s.RefMiRows[i] == 1+from%4, msg+": units")
	}
	vk.Assert(s.RefFrameId[i] == rName(from, "id", 0), msg+": number")
	vk.Assert(s.RefUpscaledWidth[i] == rName(from, "uw", 0), msg+": upscaled width")
	vk.Assert(s.RefFrameWidth[i] == rName(from, "fw", 0), msg+": width")
	vk.Assert(s.RefFrameHeight[i] == rName(from, "fh", 0), msg+": height")
	vk.Assert(s.RefRenderWidth[i] == rName(from, "rw", 0), msg+": render width")
	vk.Assert(s.RefRenderHeight[i] == rName(from, "rh", 0), msg+": render height")
	vk.Assert(s.RefFrameType[i] == rName(from, "type", 0), msg+": type")
	vk.Assert(s.RefSubsamplingX[i] == rBit(from, "sx") && s.RefSubsamplingY[i] == rBit(from, "sy"), msg+": subsampling")
	vk.Assert(s.RefBitDepth[i] == rName(from, "depth", 0), msg+": depth")
	vk.Assert(s.RefOrderHint[i] == rName(from, "order", 0), msg+": order")
	for j := 1; j < 8; j++ {
		vk.Assert(s.SavedOrderHints[i][j] == rName(from, "hint", j), msg+": orders of references")
		for k := 0; k < 6; k++ {
			vk.Assert(s.SavedGmParams[i][j][k] == rName(from, "gm", j*6+k), msg+": global motion")
		}
	}
	rSameFrame(s.FrameStore[i], from, msg+": samples")
	for r := 0; r < 5; r++ {
		for c := 0; c < 5; c++ {
			if from == 8 && (r >= rows || c >= cols) {
				continue
			}
			vk.Assert(s.SavedRefFrames[i][r][c] == rName(from, "ref", r*5+c), msg+": references")
			vk.Assert(s.SavedSegmentIds[i][r][c] == rName(from, "seg", r*5+c), msg+": segments")
			vk.Assert(s.SavedMvs[i][r][c] == [2]int{rName(from, "mv0", r*5+c), rName(from, "mv1", r*5+c)}, msg+": motion")
		}
	}
}

// rCurrent makes the frame named 8 the current one.
func rCurrent(t *TileGroup, s *state.State, uh *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
	uh.CurrentFrameId = rName(8, "id", 0)
	uh.UpscaledWidth = rName(8, "uw", 0)
	uh.FrameWidth, uh.FrameHeight = rName(8, "fw", 0), rName(8, "fh", 0)
	uh.RenderWidth, uh.RenderHeight = rName(8, "rw", 0), rName(8, "rh", 0)
	s.MiCols, s.MiRows = 4, 3
	uh.FrameType = rName(8, "type", 0)
	sh.ColorConfig.SubsamplingX = vk.SplitBool("csx", rBit(8, "sx") == 1)
	sh.ColorConfig.SubsamplingY = vk.SplitBool("csy", rBit(8, "sy") == 1)
	sh.ColorConfig.BitDepth = rName(8, "depth", 0)
	uh.OrderHint = rName(8, "order", 0)
	for j := 1; j < 8; j++ {
		uh.OrderHints[j] = rName(8, "hint", j)
		for k := 0; k < 6; k++ {
			uh.GmParams[j][k] = rName(8, "gm", j*6+k)
		}
	}
	s.LrFrame = rFrame(8)
	for r := 0; r < 5; r++ {
		for c := 0; c < 5; c++ {
			s.MfRefFrames[r][c] = rName(8, "ref", r*5+c)
			t.SegmentIds[r][c] = rName(8, "seg", r*5+c)
			s.MfMvs[r][c] = [2]int{rName(8, "mv0", r*5+c), rName(8, "mv1", r*5+c)}
		}
	}
}

//verif:bounds every choice of slots, arbitrary parameters of all frames; frames of 3x4 units with 2x2 samples
//verif:time 300
func VerifR02_store() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	rSlots(s)
	rCurrent(t, s, &uh, &sh)
	flags := vk.Split("flags", vk.Int("flags", 0, 255), 0, 255)
	vk.Assume(vk.Thorough() || flags < 4 || flags > 252 || flags&(flags-1) == 0 || flags%29 == 0)
	uh.RefreshFrameFlags = flags
	cdfs := 0
	vk.Pin(&cdfs)
	uncompressedheader.VerifHook_SaveCdfs = func(ctx int, s *state.State) {
		vk.Assert(cdfs>>uint(ctx)&1 == 0, "tables are stored once")
		cdfs |= 1 << uint(ctx)
	}
	ok := vk.Try(func() { t.referenceFrameUpdate(s, uh, sh) })
	vk.Assert(ok, "no failure")
	vk.Assert(cdfs == flags, "tables are stored in the chosen slots")
	// The next frame does not change what is stored.
	s.LrFrame[0][0][0] = 99999
	for i := 0; i < 8; i++ {
		if flags>>uint(i)&1 == 1 {
			rSame(s, i, 8, 3, 4, "a chosen slot")
			for j := 0; j < i; j++ {
				s.FrameStore[j][1][1][1] = 99999
			}
		} else {
			rSame(s, i, i, 5, 5, "another slot")
		}
		s.FrameStore[i][2][1][1] = 99999
	}
	vk.Reach("end")
}

//verif:bounds every slot, arbitrary parameters of all frames; frames of up to 4x4 units with 2x2 samples
//verif:time 300
func VerifR02_load() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	rSlots(s)
	rCurrent(t, s, &uh, &sh)
	slot := vk.Split("slot", vk.Int("slot", 0, 7), 0, 7)
	uh.FrameToShowMapIdx = slot
	sx, sy := vk.SplitBool("ssx", rBit(slot, "sx") == 1), vk.SplitBool("ssy", rBit(slot, "sy") == 1)
	var cdfs, filters, segments int
	vk.Pin(&cdfs)
	vk.Pin(&filters)
	vk.Pin(&segments)
	uncompressedheader.VerifHook_LoadCdfs = func(ctx int, s *state.State) { cdfs = cdfs*10 + ctx + 1 }
	uncompressedheader.VerifHook_LoadLoopFilterParams = func(ctx int) { filters = filters*10 + ctx + 1 }
	uncompressedheader.VerifHook_LoadSegmentationParams = func(ctx int) { segments = segments*10 + ctx + 1 }
	ok := vk.Try(func() { t.referenceFrameLoadingProcess(s, &uh, &sh) })
	vk.Assert(ok, "no failure")
	vk.Assert(cdfs == slot+1 && filters == slot+1 && segments == slot+1, "tables and parameters of the slot are loaded")
	vk.Assert(uh.CurrentFrameId == rName(slot, "id", 0), "number")
	vk.Assert(uh.UpscaledWidth == rName(slot, "uw", 0), "upscaled width")
	vk.Assert(uh.FrameWidth == rName(slot, "fw", 0), "width")
	vk.Assert(uh.FrameHeight == rName(slot, "fh", 0), "height")
	vk.Assert(uh.RenderWidth == rName(slot, "rw", 0), "render width")
	vk.Assert(uh.RenderHeight == rName(slot, "rh", 0), "render height")
	rows, cols := 1+slot%4, 2+slot%3
	vk.Assert(s.MiCols == cols && s.MiRows == rows, "units")
	vk.Assert(sh.ColorConfig.SubsamplingX == sx && sh.ColorConfig.SubsamplingY == sy, "subsampling")
	vk.Assert(sh.ColorConfig.BitDepth == rName(slot, "depth", 0), "depth")
	vk.Assert(uh.OrderHint == rName(slot, "order", 0), "order")
	for j := 1; j < 8; j++ {
		vk.Assert(uh.OrderHints[j] == rName(slot, "hint", j), "orders of references")
		for k := 0; k < 6; k++ {
			vk.Assert(uh.GmParams[j][k] == rName(slot, "gm", j*6+k), "global motion")
		}
	}
	rSameFrame(s.LrFrame, slot, "samples")
	for r := 0; r < rows; r++ {
		for c := 0; c < cols; c++ {
			vk.Assert(s.MfRefFrames[r][c] == rName(slot, "ref", r*5+c), "references")
			vk.Assert(t.SegmentIds[r][c] == rName(slot, "seg", r*5+c), "segments")
			vk.Assert(s.MfMvs[r][c] == [2]int{rName(slot, "mv0", r*5+c), rName(slot, "mv1", r*5+c)}, "motion")
		}
	}
	s.LrFrame[0][0][0] = 99999
	for i := 0; i < 8; i++ {
		rSame(s, i, i, 5, 5, "slots keep their frames")
	}
	vk.Reach("end")
}
