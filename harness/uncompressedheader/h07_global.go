package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

func models(part int) {
	s := newSpec(64)
	s.sh.SeqForceScreenContentTools = 0
	s.kind = 1
	s.free.gm = true
	s.gmPart = part
	s.read()
	s.check()
}

//verif:bounds inter frames where one reference (1, 4, 7) has any model, the next one a translation; one parameter of any code length, the others of the shortest; both motion vector precisions
//verif:time 300
func VerifH07_models0() { models(0) }

//verif:bounds inter frames where one reference (2, 5) has any model, the next one a translation; one parameter of any code length, the others of the shortest; both motion vector precisions
//verif:time 300
func VerifH07_models1() { models(1) }

//verif:bounds inter frames where one reference (3, 6) has any model, the next one a translation; one parameter of any code length, the others of the shortest; both motion vector precisions
//verif:time 300
func VerifH07_models2() { models(2) }

//verif:bounds every parameter, model type, precision, previous value in range and code
//verif:time 300
func VerifH07_param() {
	d := vk.Bytes("d", 6)
	s := newSpec(1)
	s.r = &vkspec.R{D: d}
	u := &s.u
	idx := vk.Split("idx", vk.Int("idx", 0, 5), 0, 5)
	typ := vk.Split("typ", vk.Int("typ", 1, 3), 1, 3)
	vk.Assume(typ > 1 || idx < 2)
	u.AllowHighPrecisionMv = vk.SplitBool("hp", vk.Bool("hp"))
	ref := vk.Split("ref", vk.Int("ref", 1, 7), 1, 7)
	vk.Assume(ref == 1 || ref == 7)
	one := 0
	if idx%3 == 2 {
		one = 1 << 16
	}
	prev := vk.Int("prev", -1<<13, 1<<13) + one
	if idx < 2 {
		prev = vk.Int("prevt", -1<<21, 1<<21)
		if typ == 1 {
			// the previous model may have been of another type; its
			// translation is bounded by the coded range
			vk.Assume(vk.And(prev > -1<<21, prev < 1<<21))
		}
	}
	s.st.PrevGmParams[ref][idx] = prev
	abs, prec := 12, 15
	if idx < 2 {
		abs, prec = 12, 6
		if typ == 1 {
			abs, prec = 8+vkspec.B(u.AllowHighPrecisionMv), 2+vkspec.B(u.AllowHighPrecisionMv)
		}
	}
	// references outside the coded range are not valid streams
	r := prev>>uint(16-prec) - one>>uint(16-prec)
	vk.Assume(vk.And(r >= -1<<uint(abs), r <= 1<<uint(abs)))
	want := s.gmParam(typ, idx, prev, u.AllowHighPrecisionMv, true)
	b := bitstream.NewBitStream(d)
	u.readGlobalParam(typ, ref, idx, &b, &s.st)
	vk.Assert(u.GmParams[ref][idx] == want, "a parameter is its coded difference from the previous one")
	vk.Assert(b.Position == s.r.P, "consumed bits")
	m := 1 << uint(abs)
	x := (u.GmParams[ref][idx] - one) >> uint(16-prec)
	vk.Assert(vk.And(x >= -m, x <= m), "a parameter stays in the coded range")
	vk.Reach("end")
}
