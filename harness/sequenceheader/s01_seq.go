package sequenceheader

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// specSeq is the AV1 sequence_header_obu() syntax.  The choices in fix select
// the part of the layout a harness varies; everything else is arbitrary.
type specSeq struct {
	h   SequenceHeader
	fix struct {
		reduced, timing int // 0 or 1
		ops             int // number of operating points
		opflags         int // per-point flags: 0 all off, 1 free
		wbits, hbits    int // size field widths
		tools           int // 0 fixed, 1 free
		color           int // 0 fixed, 1 free
	}
}

func (s *specSeq) read(r *vkspec.R) {
	h := &s.h
	h.SeqProfile = r.F(3)
	vk.Assume(h.SeqProfile <= 2)
	h.StillPicture = r.Flag()
	h.ReducedStillPictureHeader = r.Flag()
	red := h.ReducedStillPictureHeader
	vk.Assume(red == (s.fix.reduced == 1))
	if red {
		h.OperatingPointIdc = []int{0}
		h.SeqLevelIdx = []int{r.F(5)}
		h.SeqTier = []int{0}
	} else {
		timing := r.Flag()
		vk.Assume(timing == (s.fix.timing == 1))
		if timing {
			h.TimingInfo.NumUnitsInDisplayTick = r.F(32)
			h.TimingInfo.TimeScale = r.F(32)
			h.TimingInfo.EqualPictureInterval = r.Flag()
			if h.TimingInfo.EqualPictureInterval {
				v, ok := r.Uvlc(2)
				vk.Assume(ok)
				h.TimingInfo.NumTicksPerMinuteMinusOne = v
			}
			h.DecoderModelInfoPresent = r.Flag()
			if h.DecoderModelInfoPresent {
				h.DecoderModelInfo.BufferDelayLengthMinusOne = r.F(5)
				vk.Assume(h.DecoderModelInfo.BufferDelayLengthMinusOne <= 3)
				h.DecoderModelInfo.NumUnitsInDecodingTick = r.F(32)
				h.DecoderModelInfo.BufferRemovalTimeLengthMinusOne = r.F(5)
				h.DecoderModelInfo.FramePresentationTimeLengthMinusOne = r.F(5)
			}
		}
		h.InitialDisplayDelayPresent = r.Flag()
		vk.Assume(s.fix.opflags == 1 || !h.InitialDisplayDelayPresent)
		h.OperatingPointsCountMinusOne = r.F(5)
		n := s.fix.ops
		vk.Assume(h.OperatingPointsCountMinusOne == n-1)
		h.OperatingPointIdc = make([]int, n)
		h.SeqLevelIdx = make([]int, n)
		h.SeqTier = make([]int, n)
		h.DecoderModelPresentForThisOp = make([]bool, n)
		h.InitialDisplayDelayPresentForThisOp = make([]bool, n)
		h.InitialDisplayDelayMinusOne = make([]int, n)
		h.DecoderBufferDelay = make([]int, n)
		h.EncoderBufferDelay = make([]int, n)
		h.LowDelayModeFlag = make([]bool, n)
		for i := 0; i < n; i++ {
			h.OperatingPointIdc[i] = r.F(12)
			h.SeqLevelIdx[i] = r.F(5)
			vk.Assume(s.fix.opflags == 1 || h.SeqLevelIdx[i] <= 7)
			if h.SeqLevelIdx[i] > 7 {
				h.SeqTier[i] = r.F(1)
			}
			if h.DecoderModelInfoPresent {
				h.DecoderModelPresentForThisOp[i] = r.Flag()
				if h.DecoderModelPresentForThisOp[i] {
					k := h.DecoderModelInfo.BufferDelayLengthMinusOne + 1
					h.DecoderBufferDelay[i] = r.F(k)
					h.EncoderBufferDelay[i] = r.F(k)
					h.LowDelayModeFlag[i] = r.Flag()
				}
			}
			if h.InitialDisplayDelayPresent {
				h.InitialDisplayDelayPresentForThisOp[i] = r.Flag()
				if h.InitialDisplayDelayPresentForThisOp[i] {
					h.InitialDisplayDelayMinusOne[i] = r.F(4)
				}
			}
		}
	}
	h.FrameWidthBitsMinusOne = r.F(4)
	h.FrameHeightBitsMinusOne = r.F(4)
	vk.Assume(h.FrameWidthBitsMinusOne == s.fix.wbits-1)
	vk.Assume(h.FrameHeightBitsMinusOne == s.fix.hbits-1)
	h.MaxFrameWidthMinusOne = r.F(s.fix.wbits)
	h.MaxFrameHeightMinusOne = r.F(s.fix.hbits)
	if !red {
		h.FrameIdNumbersPresent = r.Flag()
	}
	vk.Assume(s.fix.tools == 1 || !h.FrameIdNumbersPresent)
	if h.FrameIdNumbersPresent {
		h.DeltaFrameIdLengthMinusTwo = r.F(4)
		h.AdditionalFrameIdLengthMinusOne = r.F(3)
	}
	h.Use128x128SuperBlock = r.Flag()
	h.EnableFilterIntra = r.Flag()
	h.EnableIntraEdgeFilter = r.Flag()
	h.SeqForceScreenContentTools = 2
	h.SeqForceIntegerMv = 2
	if !red {
		h.EnableInterIntraCompound = r.Flag()
		h.EnableMaskedCompound = r.Flag()
		h.EnableWarpedMotion = r.Flag()
		h.EnableDualFilter = r.Flag()
		h.EnableOrderHint = r.Flag()
		vk.Assume(s.fix.tools == 1 || h.EnableOrderHint)
		if h.EnableOrderHint {
			h.EnableJntComp = r.Flag()
			h.EnableRefFrameMvs = r.Flag()
		}
		h.SeqChooseScreenContentTools = r.Flag()
		vk.Assume(s.fix.tools == 1 || h.SeqChooseScreenContentTools)
		if !h.SeqChooseScreenContentTools {
			h.SeqForceScreenContentTools = r.F(1)
		}
		if h.SeqForceScreenContentTools > 0 {
			choose := r.Flag()
			vk.Assume(s.fix.tools == 1 || choose)
			if !choose {
				h.SeqForceIntegerMv = r.F(1)
			}
		}
		if h.EnableOrderHint {
			h.OrderHintBits = r.F(3) + 1
		}
	}
	h.EnableSuperRes = r.Flag()
	h.EnableCdef = r.Flag()
	h.EnableRestoration = r.Flag()
}

func specColor(r *vkspec.R, profile int, free bool) ColorConfig {
	var c ColorConfig
	c.HighBitDepth = r.Flag()
	vk.Assume(free || !c.HighBitDepth)
	c.BitDepth = 8
	if c.HighBitDepth {
		c.BitDepth = 10
	}
	if profile == 2 && c.HighBitDepth {
		c.TwelveBit = r.Flag()
		if c.TwelveBit {
			c.BitDepth = 12
		}
	}
	if profile != 1 {
		c.MonoChrome = r.Flag()
		vk.Assume(free || !c.MonoChrome)
	}
	c.NumPlanes = 3
	if c.MonoChrome {
		c.NumPlanes = 1
	}
	c.ColorPrimaries, c.TransferCharacteristics, c.MatrixCoefficients = 2, 2, 2
	c.ColorDescriptionPresent = r.Flag()
	vk.Assume(free || !c.ColorDescriptionPresent)
	if c.ColorDescriptionPresent {
		c.ColorPrimaries = r.F(8)
		c.TransferCharacteristics = r.F(8)
		c.MatrixCoefficients = r.F(8)
	}
	if c.MonoChrome {
		c.ColorRange = r.Flag()
		c.SubsamplingX, c.SubsamplingY = true, true
		return c
	}
	if c.ColorPrimaries == 1 && c.TransferCharacteristics == 13 && c.MatrixCoefficients == 0 {
		c.ColorRange = true
	} else {
		c.ColorRange = r.Flag()
		if profile == 0 {
			c.SubsamplingX, c.SubsamplingY = true, true
		} else if profile == 2 {
			if c.BitDepth == 12 {
				c.SubsamplingX = r.Flag()
				if c.SubsamplingX {
					c.SubsamplingY = r.Flag()
				}
			} else {
				c.SubsamplingX = true
			}
		}
		if c.SubsamplingX && c.SubsamplingY {
			c.ChromaSamplePosition = r.F(2)
		}
	}
	c.SeparateUvDeltaQ = r.Flag()
	return c
}

func checkSeq(s *specSeq, n int) {
	d := vk.Bytes("d", n)
	r := vkspec.R{D: d}
	vk.Pin(&r.P)
	s.read(&r)
	s.h.ColorConfig = specColor(&r, s.h.SeqProfile, s.fix.color == 1)
	s.h.FilmGrainParamsPresent = r.Flag()
	w := &s.h

	b := bitstream.NewBitStream(d)
	vk.Pin(&b.Position)
	st := state.State{}
	h := NewSequenceHeader(&b, &st)
	vk.Assert(b.Position == r.P, "sequence header length")
	vk.Assert(st.OperatingPointIdc == w.OperatingPointIdc[0], "operating point 0 is selected")
	vk.Assert(vk.And(h.SeqProfile == w.SeqProfile, vk.And(h.StillPicture == w.StillPicture, h.ReducedStillPictureHeader == w.ReducedStillPictureHeader)), "profile and still picture flags")
	vk.Assert(vk.Eq(h.TimingInfo, w.TimingInfo), "timing information")
	vk.Assert(h.DecoderModelInfoPresent == w.DecoderModelInfoPresent, "decoder model presence")
	vk.Assert(vk.Eq(h.DecoderModelInfo, w.DecoderModelInfo), "decoder model")
	vk.Assert(h.InitialDisplayDelayPresent == w.InitialDisplayDelayPresent, "display delay presence")
	vk.Assert(h.OperatingPointsCountMinusOne == w.OperatingPointsCountMinusOne, "operating point count")
	for i := range w.OperatingPointIdc {
		vk.Assert(h.OperatingPointIdc[i] == w.OperatingPointIdc[i], "operating point layers")
		vk.Assert(h.SeqLevelIdx[i] == w.SeqLevelIdx[i], "operating point level")
		vk.Assert(h.SeqTier[i] == w.SeqTier[i], "operating point tier")
		if w.ReducedStillPictureHeader {
			vk.Reach("reduced")
			continue
		}
		vk.Assert(h.DecoderModelPresentForThisOp[i] == w.DecoderModelPresentForThisOp[i], "operating point decoder model flag")
		if w.DecoderModelPresentForThisOp[i] {
			vk.Assert(h.DecoderBufferDelay[i] == w.DecoderBufferDelay[i], "decoder buffer delay")
			vk.Assert(h.EncoderBufferDelay[i] == w.EncoderBufferDelay[i], "encoder buffer delay")
			vk.Assert(h.LowDelayModeFlag[i] == w.LowDelayModeFlag[i], "low delay flag")
		}
		vk.Assert(h.InitialDisplayDelayPresentForThisOp[i] == w.InitialDisplayDelayPresentForThisOp[i], "operating point display delay flag")
		if w.InitialDisplayDelayPresentForThisOp[i] {
			vk.Assert(h.InitialDisplayDelayMinusOne[i] == w.InitialDisplayDelayMinusOne[i], "display delay")
		}
	}
	vk.Assert(vk.And(h.MaxFrameWidthMinusOne == w.MaxFrameWidthMinusOne, h.MaxFrameHeightMinusOne == w.MaxFrameHeightMinusOne), "maximum frame size")
	vk.Assert(vk.And(h.FrameWidthBitsMinusOne == w.FrameWidthBitsMinusOne, h.FrameHeightBitsMinusOne == w.FrameHeightBitsMinusOne), "frame size field widths")
	vk.Assert(vk.And(h.FrameIdNumbersPresent == w.FrameIdNumbersPresent, vk.And(h.DeltaFrameIdLengthMinusTwo == w.DeltaFrameIdLengthMinusTwo, h.AdditionalFrameIdLengthMinusOne == w.AdditionalFrameIdLengthMinusOne)), "frame id lengths")
	vk.Assert(vk.And(h.Use128x128SuperBlock == w.Use128x128SuperBlock, vk.And(h.EnableFilterIntra == w.EnableFilterIntra, h.EnableIntraEdgeFilter == w.EnableIntraEdgeFilter)), "intra tools")
	vk.Assert(vk.And(h.EnableInterIntraCompound == w.EnableInterIntraCompound, vk.And(h.EnableMaskedCompound == w.EnableMaskedCompound, vk.And(h.EnableWarpedMotion == w.EnableWarpedMotion, h.EnableDualFilter == w.EnableDualFilter))), "inter tools")
	vk.Assert(vk.And(h.EnableOrderHint == w.EnableOrderHint, vk.And(h.EnableJntComp == w.EnableJntComp, vk.And(h.EnableRefFrameMvs == w.EnableRefFrameMvs, h.OrderHintBits == w.OrderHintBits))), "order hint tools")
	vk.Assert(vk.And(h.SeqForceScreenContentTools == w.SeqForceScreenContentTools, h.SeqForceIntegerMv == w.SeqForceIntegerMv), "screen content and integer motion vector choices")
	vk.Assert(vk.And(h.EnableSuperRes == w.EnableSuperRes, vk.And(h.EnableCdef == w.EnableCdef, h.EnableRestoration == w.EnableRestoration)), "filter tools")
	vk.Assert(vk.Eq(h.ColorConfig, w.ColorConfig), "colour configuration")
	vk.Assert(h.FilmGrainParamsPresent == w.FilmGrainParamsPresent, "film grain presence")
	vk.Reach("end")
}

func seqCase(reduced, timing, ops, opflags, wbits, hbits, tools, color int) {
	var s specSeq
	s.fix.reduced, s.fix.timing, s.fix.ops, s.fix.opflags = reduced, timing, ops, opflags
	s.fix.wbits, s.fix.hbits, s.fix.tools, s.fix.color = wbits, hbits, tools, color
	checkSeq(&s, 48)
}

//verif:bounds reduced still picture headers, profiles 0..2, size fields of 9 and 8 bits, every colour configuration
func VerifS01_reduced() { seqCase(1, 0, 1, 0, 9, 8, 0, 1) }

//verif:bounds no timing information, 1..2 operating points (1..4 thorough) with every level, tier and display delay
func VerifS01_points() {
	n := vk.Split("ops", vk.Int("ops", 1, vk.Ite(vk.Thorough(), 4, 2)), 1, 4)
	seqCase(0, 0, n, 1, 4, 5, 0, 0)
}

//verif:bounds timing and decoder model information with short buffer delay fields, 1 operating point (2 thorough)
func VerifS01_timing() {
	n := 1
	if vk.Thorough() {
		n = 2
	}
	seqCase(0, 1, n, 1, 4, 5, 0, 0)
}

//verif:bounds every width 1..16 of the two frame size fields
func VerifS01_sizes() {
	w := vk.Split("w", vk.Int("w", 1, 16), 1, 16)
	h := w%16 + 1
	if vk.Thorough() {
		h = vk.Split("h", vk.Int("h", 1, 16), 1, 16)
	}
	seqCase(0, 0, 1, 0, w, h, 0, 0)
}

//verif:bounds every combination of coding tool flags, frame identifiers and order hint widths
func VerifS01_tools() { seqCase(0, 0, 1, 0, 4, 5, 1, 0) }

//verif:bounds every colour configuration of profiles 0..2
func VerifS01_colour() { seqCase(0, 0, 1, 0, 4, 5, 0, 1) }
