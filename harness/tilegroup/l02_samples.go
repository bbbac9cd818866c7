package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/util Abs
//verif:hook internal/util Clip3

func lAbs(x int) int { return vk.Ite(x < 0, -x, x) }

func lAny(c ...bool) bool {
	r := false
	for _, x := range c {
		r = vk.Or(r, x)
	}
	return r
}

// lSample filters across one edge whose samples are arbitrary.
func lSample(plane, size int) {
	util.VerifHook_Clip3 = func(lo, hi, x int) int { return vk.Ite(x < lo, lo, vk.Ite(x > hi, hi, x)) }
	util.VerifHook_Abs = lAbs
	t, s, sh := &TileGroup{}, &state.State{}, sequenceheader.SequenceHeader{}
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = depth
	dy := vk.Split("dy", vk.Int("dy", 0, 1), 0, 1)
	dx := 1 - dy
	// As near to the edges of the frame as such an edge can be.
	half := 4
	if size == 16 {
		half = 8
	}
	s.CurrFrame = state.NewFrame(2*half, 2*half)
	x, y := half, half
	var px [24]int
	lo, hi := -half, half
	for i := lo; i < hi; i++ {
		v := vk.IntAt("px", i+8, 0, 4095)
		vk.Assume(v < 1<<depth)
		px[i+8] = v
		s.CurrFrame[plane][y+dy*i][x+dx*i] = v
	}
	limit, blimit, thresh := vk.Int("limit", 1, 63), vk.Int("blimit", 7, 193), vk.Int("thresh", 0, 3)
	ok := vk.Try(func() { t.sampleFiltering(x, y, plane, limit, blimit, thresh, dx, dy, size, s, sh) })
	vk.Assert(ok, "no failure")

	p := func(i int) int { return px[7-i] }
	q := func(i int) int { return px[8+i] }
	out := px
	unit := 1 << (depth - 8)
	far := func(m, i, j int) bool { // samples i and j differ by more than m on a side
		return vk.Or(lAbs(p(i)-p(j)) > m, lAbs(q(i)-q(j)) > m)
	}
	rough := vk.Or(far(limit*unit, 1, 0), lAbs(p(0)-q(0))*2+lAbs(p(1)-q(1))>>1 > blimit*unit)
	hev := far(thresh*unit, 1, 0)
	if size > 4 {
		rough = vk.Or(rough, far(limit*unit, 2, 1))
	}
	if size > 4 && plane == 0 {
		rough = vk.Or(rough, far(limit*unit, 3, 2))
	}
	flat, flat2 := false, false
	if size > 4 {
		flat = !lAny(far(unit, 1, 0), far(unit, 2, 0), plane == 0 && far(unit, 3, 0))
	}
	if size == 16 {
		flat2 = !lAny(far(unit, 6, 0), far(unit, 5, 0), far(unit, 4, 0))
	}
	// smooth replaces n samples on each side by weighted means.
	smooth := func(n, twice, log2 int) {
		for i := -n; i < n; i++ {
			sum := 0
			for j := -n; j <= n; j++ {
				k := i + j
				if k < -n-1 {
					k = -n - 1
				}
				if k > n {
					k = n
				}
				sum += px[k+8]
				if j >= -twice && j <= twice {
					sum += px[k+8]
				}
			}
			out[i+8] = (sum + 1<<(log2-1)) >> log2
		}
	}
	if vk.SplitBool("rough", rough) {
		vk.Reach("rough")
	} else if !vk.SplitBool("flat", flat) {
		clamp := func(v int) int {
			lo, hi := -128*unit, 128*unit-1
			return vk.Ite(v < lo, lo, vk.Ite(v > hi, hi, v))
		}
		mid := 128 * unit
		h := vk.SplitBool("hev", hev)
		f := 0
		if h {
			f = clamp(p(1) - q(1))
		}
		f = clamp(f + 3*(q(0)-p(0)))
		f1, f2 := clamp(f+4)>>3, clamp(f+3)>>3
		out[8] = clamp(q(0)-mid-f1) + mid
		out[7] = clamp(p(0)-mid+f2) + mid
		if !h {
			f = (f1 + 1) >> 1
			out[9] = clamp(q(1)-mid-f) + mid
			out[6] = clamp(p(1)-mid+f) + mid
		}
		vk.Reach("narrow")
	} else if size == 16 && vk.SplitBool("flat2", flat2) {
		smooth(6, 1, 4)
		vk.Reach("widest")
	} else if plane == 0 {
		smooth(3, 0, 3)
		vk.Reach("wide")
	} else {
		smooth(2, 1, 3)
		vk.Reach("chroma")
	}
	for i := lo; i < hi; i++ {
		vk.Assert(s.CurrFrame[plane][y+dy*i][x+dx*i] == out[i+8], "samples across the edge")
	}
	for i := 0; i < 2*half; i++ {
		for j := 0; j < 2*half; j++ {
			if dx == 1 && i == y && j >= x+lo && j < x+hi || dy == 1 && j == x && i >= y+lo && i < y+hi {
				continue
			}
			vk.Assert(s.CurrFrame[plane][i][j] == 0, "samples elsewhere stay")
		}
	}
}

//verif:bounds every sample of 8, 10 and 12 bits, every limit, luma and chroma; both directions
//verif:time 300
func VerifL02_narrow() { lSample(vk.Split("plane", vk.Int("plane", 0, 2), 0, 2), 4) }

//verif:bounds every sample of 8, 10 and 12 bits, every limit, luma; both directions
//verif:time 300
func VerifL02_wide() { lSample(0, 8) }

//verif:bounds every sample of 8, 10 and 12 bits, every limit, chroma; both directions
//verif:time 300
func VerifL02_chroma() { lSample(2, 8) }

//verif:bounds every sample of 8, 10 and 12 bits, every limit, luma; both directions
//verif:time 300
func VerifL02_widest() { lSample(0, 16) }
