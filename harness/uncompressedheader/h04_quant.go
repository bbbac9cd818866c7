package uncompressedheader

import "github.com/m4tthewde/gov1/internal/vk"

func (s *spec) planes() {
	c := &s.sh.ColorConfig
	c.NumPlanes = vk.Split("planes", vk.Int("planes", 0, 1), 0, 1)*2 + 1
	c.MonoChrome = c.NumPlanes == 1
	if !c.MonoChrome {
		c.SeparateUvDeltaQ = vk.SplitBool("sep", vk.Bool("sep"))
	}
}

//verif:bounds key frames with every base index, delta, matrix level and plane layout; no segmentation, no filters
func VerifH04_quant() {
	s := newSpec(40)
	s.planes()
	s.free.quant = true
	s.read()
	s.check()
}

func segments(part int) {
	s := newSpec(56)
	q := vk.Split("q", vk.Int("q", 0, 2), 0, 2)
	vk.Assume(q < 2 || vk.Thorough())
	s.baseQ = []int{0, 3, 200}[q]
	s.free.seg = true
	s.segPart = part
	s.read()
	s.check()
}

//verif:bounds base index 0 and 3 (also 200 thorough); one segment (0; 3 or 6 thorough) with arbitrary features, another with fixed ones
func VerifH04_segments0() { segments(0) }

//verif:bounds base index 0 and 3 (also 200 thorough); one segment (7; 1 or 4 thorough) with arbitrary features, another with fixed ones
func VerifH04_segments1() { segments(1) }

//verif:bounds base index 0 and 3 (also 200 thorough); one segment (5; 2 thorough) with arbitrary features, another with fixed ones
func VerifH04_segments2() { segments(2) }

//verif:bounds every base index, block delta parameter and intra block copy choice
func VerifH04_delta() {
	s := newSpec(40)
	s.sh.SeqForceScreenContentTools = vk.Split("sct", vk.Int("sct", 0, 1), 0, 1)
	s.free.delta = true
	s.read()
	s.check()
}

//verif:bounds every base index, current index, segment feature and flag combination
func VerifH04_qindex() {
	s := newSpec(1)
	u := &s.u
	u.BaseQIdx = vk.Int("base", 0, 255)
	u.DeltaQPresent = vk.Bool("present")
	u.SegmentationEnabled = vk.Bool("seg")
	s.st.CurrentQIndex = vk.Int("cur", 0, 255)
	id := vk.Split("id", vk.Int("id", 0, 7), 0, 7)
	ignore := vk.Split("ignore", vk.Int("ignore", 0, 1), 0, 1)
	got := u.GetQIndex(ignore, id, &s.st)
	q := vk.Ite(vk.And(ignore == 0, u.DeltaQPresent), s.st.CurrentQIndex, u.BaseQIdx)
	x := q + s.st.FeatureData[id][0]
	x = vk.Ite(x < 0, 0, vk.Ite(x > 255, 255, x))
	want := vk.Ite(vk.And(u.SegmentationEnabled, s.st.FeatureEnabled[id][0] == 1), x, q)
	vk.Assert(got == want, "the index is the current or base index plus the segment's offset, clipped")
	vk.Reach("end")
}
