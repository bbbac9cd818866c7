package symbol

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds alphabets of 2,3,4,5,8,16 symbols (2..16 thorough); every symbol, table increasing up to it, counter 0..32, range and value
//verif:time 400
func VerifE02_adapt() {
	sizes := []int{2, 3, 4, 5, 8, 16}
	if vk.Thorough() {
		sizes = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	}
	n, sym := pick(sizes)
	x, lo, hi := arbitrary(n, sym, 20)
	vk.Assume(hi-lo >= 1<<15) // renormalisation is independent of adaptation
	ReadSymbol(x.cdf, &x.st, &x.b, x.uh)
	if x.uh.DisableCdfUpdate {
		vk.Assert(vk.Eq(x.cdf, x.old), "nothing adapts when adaptation is off")
		vk.Reach("off")
		return
	}
	c := x.old[n]
	rate := 4 + vk.Ite(n > 3, 1, 0) + vk.Ite(c > 15, 1, 0) + vk.Ite(c > 31, 1, 0)
	for i := 0; i < n-1; i++ {
		up := x.old[i] + (1<<15-x.old[i])>>uint(rate)
		down := x.old[i] - x.old[i]>>uint(rate)
		vk.Assert(x.cdf[i] == vk.Ite(i >= sym, up, down), "each entry moves towards the decoded symbol at the rate of the counter")
		if i+1 < n-1 {
			vk.Assert(vk.Imp(x.old[i] < x.old[i+1], x.cdf[i] <= x.cdf[i+1]), "an ordered table stays ordered")
		}
		vk.Assert(vk.And(x.cdf[i] > 0, x.cdf[i] <= 1<<15), "an entry stays a probability")
	}
	vk.Assert(x.cdf[n-1] == 1<<15, "the last entry stays at one")
	vk.Assert(x.cdf[n] == vk.Ite(c < 32, c+1, 32), "the counter saturates at 32")
	vk.Reach("on")
}
