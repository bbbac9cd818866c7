package uncompressedheader

import "github.com/m4tthewde/gov1/internal/vk"

func grain(k int) {
	s := newSpec(240)
	s.sh.FilmGrainParamsPresent = true
	c := &s.sh.ColorConfig
	c.MonoChrome = k == 0
	if c.MonoChrome {
		c.NumPlanes = 1
	}
	c.SubsamplingX = k < 3
	c.SubsamplingY = k < 2
	f := vk.Split("frame", vk.Int("frame", 0, 4), 0, 4)
	s.kind = []int{0, 0, 0, 2, 1}[f]
	s.show = []int{1, 0, 0, 1, 1}[f]
	s.showable = []int{0, 0, 1, 0, 0}[f]
	s.free.grain = true
	s.read()
	s.check()
}

//verif:bounds shown, hidden and hidden showable key, intra-only and inter frames with full film grain parameter sets of up to 3 luma and 2+2 chroma points (14 and 10+10 thorough), every filter lag, mono
//verif:time 300
func VerifH08_grainmono() { grain(0) }

//verif:bounds shown, hidden and hidden showable key, intra-only and inter frames with full film grain parameter sets of up to 3 luma and 2+2 chroma points (14 and 10+10 thorough), every filter lag, 420
//verif:time 300
func VerifH08_grain420() { grain(1) }

//verif:bounds shown, hidden and hidden showable key, intra-only and inter frames with full film grain parameter sets of up to 3 luma and 2+2 chroma points (14 and 10+10 thorough), every filter lag, 422
//verif:time 300
func VerifH08_grain422() { grain(2) }

//verif:bounds shown, hidden and hidden showable key, intra-only and inter frames with full film grain parameter sets of up to 3 luma and 2+2 chroma points (14 and 10+10 thorough), every filter lag, 444
//verif:time 300
func VerifH08_grain444() { grain(3) }
