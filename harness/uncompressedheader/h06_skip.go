package uncompressedheader

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds inter frames with order hints of 3 bits (and 7 bits thorough), arbitrary order hints, fixed reference indices in two orders
//verif:time 300
func VerifH06_skip() {
	s := newSpec(24)
	bits := []int{0, 3, 7}[vk.Split("bits", vk.Int("bits", 0, 2), 0, 2)]
	vk.Assume(bits < 7 || vk.Thorough())
	s.hints(bits)
	s.kind = 1
	if vk.SplitBool("order", vk.Bool("order")) {
		s.bits = []int{7, 3, 3, 0, 5, 1, 6}
	}
	s.free.skip = true
	s.read()
	s.check()
}
