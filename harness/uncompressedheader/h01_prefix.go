package uncompressedheader

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds reduced still pictures, shown and hidden key frames, intra-only frames; every sequence-wide screen content and integer motion vector choice; order hints of 0, 3 or 8 bits; arbitrary reference state; lossless 40x24 frame without further tools
func VerifH01_intra() {
	s := newSpec(24)
	s.sh.ReducedStillPictureHeader = vk.SplitBool("reduced", vk.Bool("reduced"))
	s.screen()
	bits := []int{0, 3, 8}[vk.Split("bits", vk.Int("bits", 0, 2), 0, 2)]
	if s.sh.ReducedStillPictureHeader {
		vk.Assume(bits == 0)
	}
	s.hints(bits)
	s.free.prefix = true
	for i := 0; i < 8; i++ {
		s.st.RefFrameType[i] = vk.IntAt("reftype", i, 0, 3)
	}
	s.read()
	s.check()
}

//verif:bounds frame ids of every length (delta 2..17 bits, at most 16 + 1..8 bits), arbitrary reference ids; shown key, intra-only and shown existing frames
func VerifH01_ids() {
	s := newSpec(24)
	s.sh.FrameIdNumbersPresent = true
	s.sh.DeltaFrameIdLengthMinusTwo = vk.Split("dl", vk.Int("dl", 0, 15), 0, 15)
	s.sh.AdditionalFrameIdLengthMinusOne = vk.Split("al", vk.Int("al", 0, 7), 0, 7)
	n := s.sh.DeltaFrameIdLengthMinusTwo + s.sh.AdditionalFrameIdLengthMinusOne + 3
	vk.Assume(n <= 16)
	s.kind = []int{0, 2, 4}[vk.Split("kind", vk.Int("kind", 0, 2), 0, 2)]
	for i := 0; i < 8; i++ {
		s.st.RefFrameId[i] = vk.IntAt("refid", i, 0, 65535)
		vk.Assume(s.st.RefFrameId[i] < 1<<uint(n))
		s.st.RefFrameType[i] = vk.IntAt("reftype", i, 0, 3)
	}
	s.read()
	s.check()
}

//verif:bounds decoder model with 1..3 operating points of every mask, every layer of the unit, presentation times of 1, 7 and 32 bits and removal times of 1, 9 and 32 bits; shown, hidden and existing frames
func VerifH01_timing() {
	s := newSpec(40)
	sh := &s.sh
	sh.DecoderModelInfoPresent = true
	sh.TimingInfo.EqualPictureInterval = vk.SplitBool("equal", vk.Bool("equal"))
	sh.DecoderModelInfo.FramePresentationTimeLengthMinusOne = []int{0, 6, 31}[vk.Split("pt", vk.Int("pt", 0, 2), 0, 2)]
	sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne = []int{8, 31, 0}[vk.Split("pt", vk.Int("pt", 0, 2), 0, 2)]
	n := vk.Split("ops", vk.Int("ops", 1, 3), 1, 3)
	sh.OperatingPointsCountMinusOne = n - 1
	sh.OperatingPointIdc = vk.Ints("idc", n, 0, 4095)
	sh.DecoderModelPresentForThisOp = make([]bool, n)
	for i := range sh.DecoderModelPresentForThisOp {
		sh.DecoderModelPresentForThisOp[i] = vk.SplitBool("model", vk.BoolAt("model", i))
	}
	s.h.ExtensionHeader.TemporalID = vk.Int("t", 0, 7)
	s.h.ExtensionHeader.SpatialID = vk.Int("s", 0, 3)
	k := vk.Split("kind", vk.Int("kind", 0, 3), 0, 3)
	s.kind = []int{0, 0, 2, 4}[k]
	s.show = []int{1, 0, 1, 1}[k]
	for i := 0; i < 8; i++ {
		s.st.RefFrameType[i] = vk.IntAt("reftype", i, 0, 3)
	}
	s.read()
	s.check()
}
