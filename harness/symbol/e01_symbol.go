package symbol

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds alphabets of 2,3,4,5,8,16 symbols (2..16 thorough), every symbol, table increasing up to it, range, value and new bits; at least 13 bits left
//verif:time 400
func VerifE01_interval() {
	sizes := []int{2, 3, 4, 5, 8, 16}
	if vk.Thorough() {
		sizes = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	}
	n, sym := pick(sizes)
	x, lo, hi := arbitrary(n, sym, 20)
	bits := scale(hi - lo)
	s := ReadSymbol(x.cdf, &x.st, &x.b, x.uh)
	vk.Assert(s == sym, "the symbol is the sub-interval that holds the value")
	vk.Assert(x.st.SymbolRange == (hi-lo)<<uint(bits), "the range is the sub-interval scaled up")
	vk.Assert(x.st.SymbolMaxBits == x.max-bits, "consumed bits are accounted for")
	vk.Assert(x.b.Position == x.start+bits, "as many bits are read as the range was scaled by")
	fresh := 0
	for i := 0; i < bits; i++ {
		p := x.start + i
		fresh = fresh<<1 | int(x.d[p/8]>>uint(7-p%8))&1
	}
	vk.Assert(x.st.SymbolValue == ((x.val-lo+1)<<uint(bits)-1)^fresh, "the value takes in the bits that were read")
	vk.Reach("end")
}

//verif:bounds alphabets of 2,3 symbols; every range, value and table; -30..14 bits left
//verif:time 400
func VerifE01_exhausted() {
	n, sym := pick([]int{2, 3})
	x, lo, hi := arbitrary(n, sym, 0)
	bits := scale(hi - lo)
	x.max = vk.Split("max", vk.Int("max", -1, 14), -1, 14)
	if x.max == -1 {
		x.max = vk.Int("far", -30, -1)
	}
	x.st.SymbolMaxBits = x.max
	ReadSymbol(x.cdf, &x.st, &x.b, x.uh)
	read := bits
	if x.max < bits {
		read = vk.Ite(x.max > 0, x.max, 0)
	}
	vk.Assert(x.st.SymbolMaxBits == x.max-bits, "consumed bits are accounted for past the end")
	vk.Assert(x.b.Position == x.start+read, "no bit past the end of the tile data is read")
	fresh := 0
	for i := 0; i < bits; i++ {
		p := x.start + i
		fresh = fresh<<1 | vk.Ite(i < read, int(x.d[p/8]>>uint(7-p%8))&1, 0)
	}
	vk.Assert(x.st.SymbolRange == (hi-lo)<<uint(bits), "the range is normalised past the end")
	vk.Assert(x.st.SymbolValue == ((x.val-lo+1)<<uint(bits)-1)^fresh, "zero bits follow the end of the tile data")
	vk.Reach("end")
}
