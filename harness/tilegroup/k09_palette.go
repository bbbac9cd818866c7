package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// Sorting is replaced by an exchange network; VerifK09_sort decides the real one.
//
//verif:hook internal/util Sort
//verif:hook internal/util Clip1
//verif:hook internal/util CeilLog2
//verif:hook internal/util Min
//verif:hook internal/tilegroup getPaletteColorContext
//verif:hook internal/tilegroup getPaletteCache

func network(a []int) {
	for i := range a {
		for j := i + 1; j < len(a); j++ {
			x, y := a[i], a[j]
			a[i], a[j] = vk.Ite(y < x, y, x), vk.Ite(y < x, x, y)
		}
	}
}

//verif:bounds 1 to 4 values of 12 bits (5 thorough) anywhere in an array
func VerifK09_sort() {
	most := 4
	if vk.Thorough() {
		most = 5
	}
	n := vk.Split("n", vk.Int("n", 1, most), 1, most)
	a := vk.Ints("a", 8, 0, 4095)
	want := make([]int, 8)
	copy(want, a)
	network(want[1 : 1+n])
	util.Sort(a, 1, n)
	for i := range a {
		vk.Assert(a[i] == want[i], "sorting a range")
	}
	vk.Reach("end")
}

//verif:bounds every value up to 4096; every value of 14 bits for the limit
func VerifK09_arith() {
	v := vk.Int("v", 0, 4096)
	vk.Assert(util.CeilLog2(v) == clog2(v), "bits for a range")
	w := vk.Int("w", -8191, 8191)
	d := vk.Int("d", 8, 12)
	vk.Assert(util.Clip1(w, d) == vkspec.Clip3(0, 1<<d-1, w), "limiting to the sample range")
	vk.Reach("end")
}

func sorted(name string, n int) []int {
	a := vk.Ints(name, n, 0, 1023)
	for i := 1; i < n; i++ {
		vk.Assume(a[i-1] <= a[i])
	}
	return a
}

// cacheSpec merges the colours of both neighbours without repeats.
func cacheSpec(a, b []int) []int {
	var r []int
	for len(a)+len(b) > 0 {
		v := 0
		if len(b) == 0 || len(a) > 0 && vk.SplitBool("above", a[0] <= b[0]) {
			v, a = a[0], a[1:]
		} else {
			v, b = b[0], b[1:]
		}
		if len(r) == 0 || vk.SplitBool("new", r[len(r)-1] != v) {
			r = append(r, v)
		}
	}
	return r
}

//verif:bounds up to 3 colours (4 thorough) of 10 bits above and to the left, rows at the start of a superblock of 64 and not, each availability
func VerifK09_cache() {
	var x kBlk
	most := 3
	if vk.Thorough() {
		most = 4
	}
	na := vk.Split("na", vk.Int("na", 0, most), 0, most)
	nl := vk.Split("nl", vk.Int("nl", 0, most), 0, most)
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	top := vk.SplitBool("top", vk.Bool("top"))
	x.s.MiRow, x.s.MiCol = 9, 3
	if top {
		x.s.MiRow = 16
	}
	x.s.AvailU = vk.SplitBool("up", vk.Bool("up"))
	x.s.AvailL = vk.SplitBool("left", vk.Bool("left"))
	a, l := sorted("above", na), sorted("left2", nl)
	x.t.PaletteSizes[plane][x.s.MiRow-1][3] = na
	x.t.PaletteSizes[plane][x.s.MiRow][2] = nl
	copy(x.t.PaletteColors[plane][x.s.MiRow-1][3][:], a)
	copy(x.t.PaletteColors[plane][x.s.MiRow][2][:], l)
	if top || !x.s.AvailU {
		a = nil
	}
	if !x.s.AvailL {
		l = nil
	}
	n := x.t.getPaletteCache(plane, &x.s)
	want := cacheSpec(a, l)
	vk.Assert(n == len(want), "the number of cached colours")
	for i := range want {
		vk.Assert(x.t.PaletteCache[i] == want[i], "a cached colour")
	}
	vk.Reach("end")
}

func clog2(x int) int {
	r := 0
	for i := 0; i < 13; i++ {
		r = vk.Ite(x > 1<<i, i+1, r)
	}
	return r
}

// coloursSpec reads the colours of the first or second plane.
func coloursSpec(cache []int, size, depth, step int) []int {
	var r []int
	for i := range cache {
		if len(r) < size && vk.SplitBool("use", lit(1) == 1) {
			r = append(r, cache[i])
		}
	}
	if len(r) < size {
		r = append(r, lit(depth))
	}
	if len(r) < size {
		bits := depth - 3 + lit(2)
		for len(r) < size {
			v := vkspec.Clip3(0, 1<<depth-1, r[len(r)-1]+lit(bits)+step)
			r = append(r, v)
			bits = umin(bits, clog2(1<<depth-v-step))
		}
	}
	network(r)
	return r
}

func paletteBlk(x *kBlk) {
	kHooks()
	kTables(&x.s)
	x.s.MiRow, x.s.MiCol = 1, 1
	x.s.MiSize = vk.Int("bsize", 3, 12)
	x.sh.ColorConfig.BitDepth = 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	x.t.YMode = vk.Int("ymode", 0, 12)
	x.t.UVMode = vk.Int("uvmode", 0, 13)
	x.t.HasChroma = vk.Bool("chroma")
	x.s.AvailU = vk.Bool("up")
	x.s.AvailL = vk.Bool("left")
	x.t.PaletteSizes[0][0][1] = vk.Int("pa", 0, 8)
	x.t.PaletteSizes[0][1][0] = vk.Int("pl", 0, 8)
	literal.VerifHook_L = func(n int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
		v := vk.IntAt("lit", kN, 0, 65535)
		vk.Assume(v < 1<<n)
		kIds[kN], kVals[kN] = idLit+n, v
		kN++
		return v
	}
	bitstream.VerifHook_S = func(b *bitstream.BitStream) int {
		v := vk.Split("colours", kRead(idNone, 2), 0, 1)
		kVals[kN-1] = v
		return v
	}
	util.VerifHook_Sort = func(a []int, i, j int) []int {
		network(a[i : j+1])
		return a
	}
	util.VerifHook_CeilLog2 = clog2
	util.VerifHook_Clip1 = func(v, depth int) int { return vkspec.Clip3(0, 1<<depth-1, v) }
	util.VerifHook_Min = func(a, b int) int { return umin(a, b) }
	VerifHook_getPaletteCache = func(t *TileGroup, plane int, s *state.State) int {
		n := vk.Split("cached", vk.Int("cached", 0, 2), 0, 2)
		for i := 0; i < n; i++ {
			t.PaletteCache[i] = vk.IntAt([]string{"cacheY", "cacheU"}[plane], i, 0, 255)
		}
		return n
	}
}

func paletteOfCache(x *kBlk, plane int) []int {
	n := vk.Split("cached2", vk.Int("cached", 0, 2), 0, 2)
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, vk.IntAt([]string{"cacheY", "cacheU"}[plane], i, 0, 255))
	}
	return r
}

func sizeLog(size int) int { return lg(specW4[size]) + lg(specH4[size]) - 2 }

//verif:bounds palettes of up to 3 luma colours from a cache of up to 2, bit depths 8, 10 and 12; every block size and mode; table rows up to 64x64
//verif:time 400
func VerifK09_luma() {
	var x kBlk
	paletteBlk(&x)
	x.t.HasChroma = false
	x.t.paletteModeInfo(&x.b, &x.s, x.sh, x.u)
	size := 0
	if x.t.YMode == 0 {
		ctx := vk.Ite(vk.And(x.s.AvailU, x.t.PaletteSizes[0][0][1] > 0), 1, 0) + vk.Ite(vk.And(x.s.AvailL, x.t.PaletteSizes[0][1][0] > 0), 1, 0)
		sz := 0
		for i := 3; i <= 12; i++ {
			sz = vk.Ite(x.s.MiSize == i, sizeLog(i), sz)
		}
		if sym(idPalY+20*sz+ctx) == 1 {
			size = none(2) + 2
			r := coloursSpec(paletteOfCache(&x, 0), size, x.sh.ColorConfig.BitDepth, 1)
			for i := range r {
				vk.Assert(x.t.PaletteColorsY[i] == r[i], "a luma colour")
			}
			vk.Reach("palette")
		}
	}
	kEnd()
	vk.Assert(x.t.PaletteSizeY == size && x.t.PaletteSizeUV == 0, "the number of colours")
	vk.Reach("end")
}

//verif:bounds palettes of 2 or 3 chroma colours from a cache of up to 2, bit depths 8, 10 and 12, both codings of the second plane
//verif:time 400
func VerifK09_chroma() {
	var x kBlk
	paletteBlk(&x)
	x.t.YMode = 1
	x.t.PaletteSizeY = vk.Int("sizeY", 0, 8)
	x.t.paletteModeInfo(&x.b, &x.s, x.sh, x.u)
	size := 0
	if x.t.HasChroma && x.t.UVMode == 0 && sym(idPalUV+vk.Ite(x.t.PaletteSizeY > 0, 1, 0)) == 1 {
		size = none(2) + 2
		depth := x.sh.ColorConfig.BitDepth
		r := coloursSpec(paletteOfCache(&x, 1), size, depth, 0)
		var v [4]int
		if vk.SplitBool("delta", lit(1) == 1) {
			bits := depth - 4 + lit(2)
			v[0] = lit(depth)
			for i := 1; i < size; i++ {
				d := lit(bits)
				if vk.SplitBool("move", d != 0) {
					d = vk.Ite(lit(1) == 1, -d, d)
				}
				d += v[i-1]
				d = vk.Ite(d < 0, d+1<<depth, d)
				v[i] = vkspec.Clip3(0, 1<<depth-1, vk.Ite(d >= 1<<depth, d-1<<depth, d))
			}
		} else {
			for i := 0; i < size; i++ {
				v[i] = lit(depth)
			}
		}
		for i := range r {
			vk.Assert(x.t.PaletteColorsU[i] == r[i], "a colour of the first chroma plane")
			vk.Assert(x.t.PaletteColorsV[i] == v[i], "a colour of the second chroma plane")
		}
		vk.Reach("palette")
	}
	kEnd()
	vk.Assert(x.t.PaletteSizeUV == size, "the number of colours")
	vk.Reach("end")
}

//verif:bounds palettes of 2 to 8 colours, every three neighbours
func VerifK09_order() {
	var x kBlk
	n := vk.Split("n", vk.Int("n", 2, 8), 2, 8)
	r := vk.Split("r", vk.Int("r", 0, 1), 0, 1)
	c := vk.Split("c", vk.Int("c", 0, 1), 0, 1)
	vk.Assume(r+c > 0)
	m := &x.t.ColorMapY
	m[0][0], m[0][1], m[1][0] = vk.Int("m0", 0, 7), vk.Int("m1", 0, 7), vk.Int("m2", 0, 7)
	vk.Assume(m[0][0] < n && m[0][1] < n && m[1][0] < n)
	x.t.getPaletteColorContext(m, r, c, n)
	// a colour's weight is twice that of a tie to the left; colours of more
	// weight come first, others keep their order
	w := make([]int, n)
	for i := range w {
		w[i] = vk.Ite(c > 0 && m[r][c-c&1] == i, 2, 0) + vk.Ite(r > 0 && m[r-r&1][c] == i, 1, 0) + vk.Ite(r > 0 && c > 0 && m[0][0] == i, 1, 0)
	}
	hash := 0
	for i := range w {
		at := 0
		for k := range w {
			at += vk.Ite(vk.Or(w[k] > w[i], vk.And(w[k] == w[i], k < i)), 1, 0)
		}
		hash += w[i] * vk.Ite(at == 0, 1, vk.Ite(at < 3, 2, 0))
		for k := range w {
			vk.Assert(vk.Imp(at == k, x.t.ColorOrder[k] == i), "colours are ordered by weight")
		}
	}
	vk.Assert(x.t.ColorContextHash == hash, "the weights give the context")
	vk.Reach("end")
}

//verif:bounds blocks of 8x8, 4x16 and 16x8 with 2 to 8 colours, whole or cut by the right or lower frame edge by one unit, formats 4:4:4 and 4:2:0, every index
//verif:loop 2000
func VerifK09_map() {
	var x kBlk
	kHooks()
	size := []int{3, 16, 5}[vk.Split("bsize", vk.Int("bsize", 0, 2), 0, 2)]
	chroma := vk.SplitBool("chroma", vk.Bool("chroma"))
	sub := vk.SplitBool("sub", vk.Bool("sub"))
	vk.Assume(chroma || !sub)
	x.sh.ColorConfig.SubsamplingX, x.sh.ColorConfig.SubsamplingY = sub, sub
	x.s.MiSize = size
	x.s.MiRow, x.s.MiCol = 2, 3
	w, h := specW4[size], specH4[size]
	// a 16 sample side ends after 12 samples, an 8 sample one after 4
	cw, ch := vk.Split("cw", vk.Int("cw", 0, 1), 0, 1), vk.Split("ch", vk.Int("ch", 0, 1), 0, 1)
	if w == 1 {
		cw = 0
	}
	x.s.MiRows, x.s.MiCols = 2+h-ch, 3+w-cw
	w, h, cw, ch = w*4, h*4, (w-cw)*4, (h-ch)*4
	if sub {
		w, h, cw, ch = w/2, h/2, cw/2, ch/2
		if w < 4 {
			w, cw = 4, cw+2
		}
		if h < 4 {
			h, ch = 4, ch+2
		}
	}
	n := vk.Split("n", vk.Int("n", 2, 8), 2, 8)
	m := &x.t.ColorMapY
	if chroma {
		x.t.PaletteSizeUV = n
		m = &x.t.ColorMapUV
	} else {
		x.t.PaletteSizeY = n
	}
	var at [][2]int
	VerifHook_getPaletteColorContext = func(t *TileGroup, cm *[64][64]int, r, c, k int) {
		vk.Assert(cm == m && k == n, "the palette of a plane")
		at = append(at, [2]int{r, c})
		for i := 0; i < 8; i++ {
			t.ColorOrder[i] = (i + 3) % 8
		}
	}
	bitstream.VerifHook_S = func(b *bitstream.BitStream) int { return vk.IntAt("idx", len(at)-1, 0, 7) }
	x.t.paletteTokens(&x.b, &x.s, x.sh, x.u)
	// the first index is coded alone
	k := lg(n)
	v := lit(vk.Ite(n == 1<<k, k, k-1))
	if n != 1<<k && v >= 2<<(k-1)-n {
		v = v<<1 - (2<<(k-1) - n) + lit(1)
	}
	kEnd()
	var want [16][16]int
	want[0][0] = v
	i := 0
	for d := 1; d < cw+ch-1; d++ {
		for c := d; c >= 0; c-- {
			if c >= cw || d-c >= ch {
				continue
			}
			vk.Assert(i < len(at) && at[i] == [2]int{d - c, c}, "indexes are coded along diagonals")
			want[d-c][c] = (vk.IntAt("idx", i, 0, 7) + 3) & 7
			i++
		}
	}
	vk.Assert(i == len(at), "indexes are coded inside the frame")
	for r := 0; r < h; r++ {
		for c := 0; c < w; c++ {
			r1, c1 := r, c
			if r >= ch {
				r1 = ch - 1
			}
			if c >= cw {
				c1 = cw - 1
			}
			vk.Assert(m[r][c] == want[r1][c1], "the index of a sample")
		}
	}
	vk.Reach("end")
}
