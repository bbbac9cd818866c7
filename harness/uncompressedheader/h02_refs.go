package uncompressedheader

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds inter and switch frames without a primary reference, error resilient or not, shown or hidden; order hints of 0 and 4 bits (1 and 8 thorough); screen content and warped motion when shown, motion fields when hidden; arbitrary reference indices, order hints, refresh masks and coded reference order hints
func VerifH02_inter() {
	s := newSpec(40)
	bits := vk.Split("bits", vk.Int("bits", 0, 3), 0, 3)
	vk.Assume(bits < 2 || vk.Thorough())
	s.hints([]int{0, 4, 1, 8}[bits])
	s.kind = vk.Split("kind", vk.Int("kind", 0, 1), 0, 1)*2 + 1
	s.show = vk.Split("show", vk.Int("show", 0, 1), 0, 1)
	s.err = vk.SplitBool("err", vk.Bool("err"))
	s.sh.SeqForceScreenContentTools = s.show
	s.sh.EnableWarpedMotion = s.show == 1
	s.sh.EnableRefFrameMvs = s.show == 0
	s.free.refs = true
	s.read()
	s.check()
}

//verif:bounds inter frames with frame ids (4-bit differences, 7-bit ids) and 4-bit order hints, arbitrary reference ids and indices
func VerifH02_ids() {
	s := newSpec(40)
	s.sh.FrameIdNumbersPresent = true
	s.sh.DeltaFrameIdLengthMinusTwo, s.sh.AdditionalFrameIdLengthMinusOne = 2, 2
	s.hints(4)
	s.kind = 1
	s.err = true
	for i := 0; i < 8; i++ {
		s.st.RefFrameId[i] = vk.IntAt("refid", i, 0, 127)
	}
	s.free.refs = true
	s.read()
	s.check()
}

//verif:bounds every pair of hints of 1..8 bits
func VerifH02_distance() {
	s := newSpec(1)
	bits := vk.Split("bits", vk.Int("bits", 1, 8), 1, 8)
	s.sh.EnableOrderHint = vk.SplitBool("on", vk.Bool("on"))
	s.sh.OrderHintBits = bits
	a := vk.IntAt("a", bits, 0, 1<<uint(bits)-1)
	b := vk.IntAt("b", bits, 0, 1<<uint(bits)-1)
	d := s.u.GetRelativeDist(a, b, s.sh)
	if !s.sh.EnableOrderHint {
		vk.Assert(d == 0, "without order hints all frames are equally far")
		vk.Reach("off")
		return
	}
	m := 1 << uint(bits)
	vk.Assert(vk.And(d >= -m/2, d < m/2), "a distance is at most half the cycle")
	vk.Assert((d-(a-b))&(m-1) == 0, "a distance is the difference modulo the cycle")
	vk.Reach("on")
}
