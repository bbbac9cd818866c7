package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

// Each harness replaces the layer below the one it decides by a recorder or
// by arbitrary values.
//
//verif:hook internal/tilegroup loopRestoreBlock
//verif:hook internal/tilegroup wienerFilter
//verif:hook internal/tilegroup selfGuidedFilter
//verif:hook internal/tilegroup getSourceSample
//verif:hook internal/tilegroup boxFilter
//verif:hook internal/util Clip1
//verif:hook internal/util Clip3
//verif:hook internal/util Max
//verif:hook internal/util Round2

//verif:bounds frames of up to 20x20 samples with every choice of restored planes
func VerifL05_walk() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	lFormat(&sh)
	uh.UsesLr = false
	for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
		uh.FrameRestorationType[p] = vk.Split("kind", vk.IntAt("kind", p, 0, 1), 0, 1) * (3 - p)
		uh.UsesLr = uh.UsesLr || uh.FrameRestorationType[p] != 0
	}
	uh.UpscaledWidth = vk.Split("width", vk.Int("width", 1, 5), 1, 5) * 4
	uh.FrameWidth = uh.UpscaledWidth / 2
	uh.FrameHeight = vk.Split("height", vk.Int("height", 1, 5), 1, 5)*4 - 3
	s.UpscaledCdefFrame = lFrame(4, 4, "y", "u", "v")
	s.LrFrame = state.NewFrame(4, 4)
	n := 0
	vk.Pin(&n)
	var got [3][5][5]int
	VerifHook_loopRestoreBlock = func(t *TileGroup, plane, row, col int, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		vk.Assert(got[plane][row][col] == 0, "blocks once")
		got[plane][row][col] = 1
		s.LrFrame[0][0][0] = 9999
		n++
	}
	ok := vk.Try(func() { t.loopRestoration(s, uh, sh) })
	vk.Assert(ok, "no failure")
	want := 0
	for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
		if uh.FrameRestorationType[p] != 0 {
			want += (uh.FrameHeight + 3) / 4 * (uh.UpscaledWidth / 4)
		}
		for i := 0; i < 4; i++ {
			for j := 0; j < 4; j++ {
				v := vk.IntAt([3]string{"y", "u", "v"}[p], i*4+j, 0, 4095)
				vk.Assert(s.UpscaledCdefFrame[p][i][j] == v, "the input stays")
				if p+i+j > 0 || n == 0 {
					vk.Assert(s.LrFrame[p][i][j] == v, "other samples are copied")
				}
			}
		}
	}
	vk.Assert(n == want, "every block of restored planes")
	vk.Reach("end")
}

//verif:bounds frames up to 150x150 (luma or chroma of every format), 4-sample rows and columns 0, 1, 13 to 17, 22 to 33 and those at the frame end, units of 32 and 64
//verif:time 300
func VerifL05_block() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	sx, sy := lFormat(&sh)
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	vk.Assume(plane < sh.ColorConfig.NumPlanes)
	vk.Assume(plane > 0 || sx&sy == 1)
	if plane == 0 {
		sx, sy = 0, 0
	}
	uh.UpscaledWidth, uh.FrameHeight = vk.Int("width", 16, 150), vk.Int("height", 1, 150)
	uh.FrameWidth = 8
	unit := 32 << vk.Split("unit", vk.Int("unit", 0, 1), 0, 1)
	s.LoopRestorationSize[plane] = unit
	// One position is at 5 if the other varies.
	k := vk.Split("pos", vk.Int("pos", 0, 37), 0, 37)
	vk.Assume(k < 2 || k >= 13 && k <= 17 || k >= 22 && k <= 33 || k == 37)
	row, col := k, 5
	if vk.SplitBool("across", vk.Bool("across")) {
		row, col = 5, k
	}
	x, y := col*4, row*4
	vk.Assume(x < uh.UpscaledWidth)
	vk.Assume(y < uh.FrameHeight)
	kind := vk.Split("kind", vk.Int("kind", 0, 2), 0, 2)
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			t.LrType[plane][i][j] = kind
		}
	}
	n := 0
	vk.Pin(&n)
	var gk, gr, gc, gx, gy, gw, gh int
	note := func(k, plane2, ur, uc, x, y, w, h int) {
		vk.Assert(plane2 == plane, "plane")
		gk, gr, gc, gx, gy, gw, gh = k, ur, uc, x, y, w, h
		n++
	}
	VerifHook_wienerFilter = func(t *TileGroup, plane, ur, uc, x, y, w, h int, s *state.State, sh sequenceheader.SequenceHeader) {
		note(1, plane, ur, uc, x, y, w, h)
	}
	VerifHook_selfGuidedFilter = func(t *TileGroup, plane, ur, uc, x, y, w, h int, s *state.State, sh sequenceheader.SequenceHeader) {
		note(2, plane, ur, uc, x, y, w, h)
	}
	ok := vk.Try(func() { t.loopRestoreBlock(plane, row, col, s, sh, uh) })
	vk.Assert(ok, "no failure")
	pw, ph := (uh.UpscaledWidth+sx)>>sx, (uh.FrameHeight+sy)>>sy
	// Stripes of 64 luma rows, the first 8 rows shorter.
	stripe := (y + 8) >> 6
	vk.Assert(t.StripeStartY == (stripe*64-8)>>sy, "start of the stripe")
	vk.Assert(t.StripeEndY == (stripe*64+56)>>sy-1, "end of the stripe")
	vk.Assert(t.PlaneEndX == pw-1 && t.PlaneEndY == ph-1, "end of the plane")
	if kind == 0 {
		vk.Assert(n == 0, "units that are not restored")
		vk.Reach("none")
		return
	}
	vk.Assert(n == 1 && gk == kind, "one filter")
	// The last unit takes what is less than half a unit more.
	last := func(size, at int) int {
		most := (size + unit/2) / unit
		most = vk.Ite(most < 1, 1, most) - 1
		return vk.Ite(most < at, most, at)
	}
	vk.Assert(gr == last(ph, ((y+8)>>sy)/unit), "row of the unit")
	vk.Assert(gc == last(pw, (x>>sx)/unit), "column of the unit")
	vk.Assert(gx == x>>sx && gy == y>>sy, "position")
	w, h := 4>>sx, 4>>sy
	vk.Assert(gw == vk.Ite(pw-gx < w, pw-gx, w), "width")
	vk.Assert(gh == vk.Ite(ph-gy < h, ph-gy, h), "height")
	vk.Reach("filter")
}

//verif:bounds every position up to 8 samples outside planes of up to 12x12 samples with stripes anywhere
//verif:time 300
func VerifL05_source() {
	t, s := &TileGroup{}, &state.State{}
	s.UpscaledCurrFrame = lFrame(12, 12, "a", "b")
	s.UpscaledCdefFrame = lFrame(12, 12, "c", "d")
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	t.PlaneEndX = vk.Split("w", vk.Int("w", 0, 11), 0, 11)
	vk.Assume(t.PlaneEndX%5 == 1)
	t.PlaneEndY = vk.Split("h", vk.Int("h", 0, 11), 0, 11)
	t.StripeStartY = 2 * vk.Split("start", vk.Int("start", -2, 4), -2, 4)
	vk.Assume(t.PlaneEndY == 3 || t.PlaneEndY == 6 || t.PlaneEndY == 11)
	vk.Assume(t.StripeStartY <= t.PlaneEndY)
	t.StripeEndY = t.StripeStartY + 3
	if vk.SplitBool("long", vk.Bool("long")) {
		t.StripeEndY += 30
	}
	x := vk.Split("x", vk.Int("x", -8, 20), -8, 20)
	vk.Assume(x < 3 || x > t.PlaneEndX-2)
	y := vk.Int("y", -8, 20)
	vk.Assume(y == 2 || x == 1)
	y = vk.Split("y", y, -8, 20)
	// The filters reach 3 samples around a sample of the stripe.
	vk.Assume(y >= t.StripeStartY-3 && y <= t.StripeEndY+3)
	got := 0
	ok := vk.Try(func() { got = t.getSourceSample(plane, x, y, s) })
	vk.Assert(ok, "no failure")
	lim := func(v, lo, hi int) int {
		if v < lo {
			return lo
		}
		if v > hi {
			return hi
		}
		return v
	}
	x, y = lim(x, 0, t.PlaneEndX), lim(y, 0, t.PlaneEndY)
	f := s.UpscaledCdefFrame
	if y < t.StripeStartY || y > t.StripeEndY {
		// Beyond the stripe two rows of samples before the directional
		// filter are used.
		f = s.UpscaledCurrFrame
		y = lim(y, t.StripeStartY-2, t.StripeEndY+2)
	}
	vk.Assert(got == f[plane][y][x], "a sample around the stripe")
	vk.Reach("end")
}

// lSource gives arbitrary samples around the block at 4, 4.
func lSource(depth int) func(t *TileGroup, plane, x, y int, s *state.State) int {
	return func(t *TileGroup, plane, x, y int, s *state.State) int {
		return lAt(x, y, depth)
	}
}

func lAt(x, y, depth int) int {
	return vk.IntAt([3]string{"src8", "src10", "src12"}[depth/2-4], y*16+x, 0, 1<<depth-1)
}

func lHooks(depth int) {
	util.VerifHook_Clip1 = lClip1
	util.VerifHook_Max = func(a, b int) int { return vk.Ite(a < b, b, a) }
	util.VerifHook_Clip3 = func(lo, hi, x int) int { return vk.Ite(x < lo, lo, vk.Ite(x > hi, hi, x)) }
	VerifHook_getSourceSample = lSource(depth)
}

//verif:bounds blocks of 1 to 4 samples each way, every tap, arbitrary samples of 8, 10 and 12 bits
//verif:time 300
func VerifL05_wiener() { lWiener(0, 4) }

//verif:bounds blocks of one or two samples, each tap its least or greatest, arbitrary samples of 8, 10 and 12 bits
//verif:time 300
func VerifL05_wienerExtreme() { lWiener(1+vk.Split("extreme", vk.Int("extreme", 0, 7), 0, 7), 2) }

// The taps are arbitrary, or the ones that the bits of mode-1 choose.
func lWiener(mode, size int) {
	t, s, sh := &TileGroup{}, &state.State{}, sequenceheader.SequenceHeader{}
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = depth
	lHooks(depth)
	w, h := 1, size
	if mode == 0 {
		w, h = vk.Split("w", vk.Int("w", 1, size), 1, size), vk.Split("h", vk.Int("h", 1, size), 1, size)
		vk.Assume(w%2 == 0 || h == 3)
	}
	s.LrFrame = state.NewFrame(12, 12)
	lo, hi := [3]int{-5, -23, -17}, [3]int{10, 8, 46}
	var f [2][7]int
	for p := 0; p < 2; p++ {
		f[p][3] = 128
		for i := 0; i < 3; i++ {
			c := lo[i]
			if mode == 0 {
				c = vk.IntAt("tap", p*3+i, -23, 46)
				vk.Assume(c >= lo[i])
				vk.Assume(c <= hi[i])
			} else if (mode-1)>>i&1 == 1 {
				c = hi[i]
			}
			t.LrWiener[1][2][3][p][i] = c
			f[p][i], f[p][6-i] = c, c
			f[p][3] -= 2 * c
		}
	}
	ok := vk.Try(func() { t.wienerFilter(1, 2, 3, 4, 4, w, h, s, sh) })
	vk.Assert(ok, "no failure")
	r0, r1 := 3, 11
	if depth == 12 {
		r0, r1 = 5, 9
	}
	least := -(1 << (depth + 6 - r0))
	most := 1<<(depth+8-r0) - 1 + least
	var mid [10][4]int
	for i := 0; i < h+6; i++ {
		for j := 0; j < w; j++ {
			sum := 0
			for k := 0; k < 7; k++ {
				sum += f[1][k] * lAt(4+j+k-3, 4+i-3, depth)
			}
			v := (sum + 1<<(r0-1)) >> r0
			mid[i][j] = vk.Ite(v < least, least, vk.Ite(v > most, most, v))
		}
	}
	for i := 0; i < 12; i++ {
		for j := 0; j < 12; j++ {
			want := 0
			if i >= 4 && i < 4+h && j >= 4 && j < 4+w {
				sum := 0
				for k := 0; k < 7; k++ {
					sum += f[0][k] * mid[i-4+k][j-4]
				}
				want = lClip1((sum+1<<(r1-1))>>r1, depth)
			}
			vk.Assert(s.LrFrame[1][i][j] == want, "a restored sample")
		}
	}
	vk.Reach("end")
}

// Radius and strength of both passes of the sets of the self-guided filter.
var lSets = [16][4]int{
	{2, 12, 1, 4}, {2, 15, 1, 6}, {2, 18, 1, 8}, {2, 21, 1, 9},
	{2, 24, 1, 10}, {2, 29, 1, 11}, {2, 36, 1, 12}, {2, 45, 1, 13},
	{2, 56, 1, 14}, {2, 68, 1, 15}, {0, 0, 1, 5}, {0, 0, 1, 8},
	{0, 0, 1, 11}, {0, 0, 1, 14}, {2, 30, 0, 0}, {2, 75, 0, 0},
}

//verif:bounds blocks of 2x2 and 4x4 samples, every set (all but one only with 2x2 blocks of 8 bits), arbitrary samples of 8, 10 and 12 bits; the kind of variance (none, between, most) is the same at all positions but one
//verif:time 300
func VerifL05_box() {
	t, s, sh := &TileGroup{}, &state.State{}, sequenceheader.SequenceHeader{}
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = depth
	lHooks(depth)
	w := 2 * vk.Split("w", vk.Int("w", 1, 2), 1, 2)
	h := w
	set := vk.Split("set", vk.Int("set", 0, 15), 0, 15)
	pass := vk.Split("pass", vk.Int("pass", 0, 1), 0, 1)
	r, eps := lSets[set][2*pass], lSets[set][2*pass+1]
	vk.Assume(r > 0)
	// Every set with blocks of 8 bit samples, one with the rest.
	vk.Assume(set == 3 || w == 2 && depth == 8)
	s.UpscaledCdefFrame[2] = lFrame(12, 12, "cdef")[0]
	// The scaled variance at each position is arbitrary; what is scaled is
	// compared below.
	kind := vk.Split("kind", vk.Int("kind", 0, 2), 0, 2)
	odd := vk.Split("odd", vk.Int("odd", 0, 35), 0, 35)
	vk.Assume(odd < (w+2)*(h+2))
	vk.Assume(odd%5 == 1 || odd == 9)
	other := vk.Split("other", vk.Int("other", 0, 2), 0, 2)
	vk.Assume(kind == 1 || depth == 8 && set == 3)
	zAt := func(k int) int {
		c := kind
		if k == odd {
			c = other
		}
		switch c {
		case 0:
			return 0
		case 1:
			return vk.IntAt("between", k, 1, 254)
		}
		return vk.IntAt("most", k, 255, 1<<20)
	}
	var scaled [36]int
	calls := 0
	vk.Pin(&calls)
	util.VerifHook_Round2 = func(x, n int) int {
		if n == 20 {
			vk.Assert(calls < 36, "one variance each")
			scaled[calls] = x
			calls++
			return zAt(calls - 1)
		}
		if n == 0 {
			return x
		}
		return (x + 1<<uint(n-1)) >> uint(n)
	}
	var got [4][4]int
	ok := vk.Try(func() {
		f := t.boxFilter(2, 4, 4, w, h, set, pass == 1, s, sh)
		for i := 0; i < h; i++ {
			for j := 0; j < w; j++ {
				got[i][j] = f[i][j]
			}
		}
	})
	vk.Assert(ok, "no failure")
	n := (2*r + 1) * (2*r + 1)
	scale := (1<<20 + n*n*eps/2) / (n * n * eps)
	one := (4096 + n/2) / n
	var A, B [6][6]int
	for i := 0; i < h+2; i++ {
		for j := 0; j < w+2; j++ {
			a, b := 0, 0
			for dy := -r; dy <= r; dy++ {
				for dx := -r; dx <= r; dx++ {
					v := lAt(3+j+dx, 3+i+dy, depth)
					a += v * v
					b += v
				}
			}
			d := b
			if depth > 8 {
				a = (a + 1<<(2*depth-17)) >> (2*depth - 16)
				d = (b + 1<<(depth-9)) >> (depth - 8)
			}
			p := a*n - d*d
			p = vk.Ite(0 < p, p, 0)
			vk.Assert(scaled[i*(w+2)+j] == p*scale, "variance")
			z := zAt(i*(w+2) + j)
			if z == 0 {
				A[i][j] = 1
			} else if z > 254 {
				A[i][j] = 256
			} else {
				A[i][j] = (z<<8 + z/2) / (z + 1)
			}
			B[i][j] = ((256-A[i][j])*b*one + 2048) >> 12
		}
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			a, b, log := 0, 0, 5
			if pass == 0 && i%2 == 1 {
				log = 4
			}
			for dy := 0; dy < 3; dy++ {
				for dx := 0; dx < 3; dx++ {
					weight := 4
					if pass == 1 && dx != 1 && dy != 1 {
						weight = 3
					}
					if pass == 0 {
						// Only rows before even ones count.
						weight = 0
						if (i+dy)%2 == 0 {
							weight = 5 + dx%2
						}
					}
					a += weight * A[i+dy][j+dx]
					b += weight * B[i+dy][j+dx]
				}
			}
			v := a*s.UpscaledCdefFrame[2][4+i][4+j] + b
			vk.Assert(got[i][j] == (v+1<<(log+3))>>(log+4), "a filtered sample")
		}
	}
	vk.Reach("end")
}

//verif:bounds blocks of 1 to 4 samples each way, every set, weight, sample of 8, 10 and 12 bits and filtered value
//verif:time 300
func VerifL05_guided() {
	t, s, sh := &TileGroup{}, &state.State{}, sequenceheader.SequenceHeader{}
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = depth
	lHooks(depth)
	w, h := vk.Split("w", vk.Int("w", 1, 4), 1, 4), vk.Split("h", vk.Int("h", 1, 4), 1, 4)
	vk.Assume(w%2 == 0 || h == 3)
	set := vk.Split("set", vk.Int("set", 0, 15), 0, 15)
	t.LrSgrSet[0][1][2] = set
	w0, w1 := vk.Int("w0", -96, 31), vk.Int("w1", -32, 95)
	t.LrSgrXqd[0][1][2] = [2]int{w0, w1}
	s.UpscaledCdefFrame[0] = lFrame(12, 12, "cdef")[0]
	s.LrFrame = state.NewFrame(12, 12)
	VerifHook_boxFilter = func(t *TileGroup, plane, x, y, w2, h2, set2 int, pass bool, s *state.State, sh sequenceheader.SequenceHeader) (f [MI_SIZE][MI_SIZE]int) {
		vk.Assert(plane == 0 && x == 4 && y == 4 && w2 == w && h2 == h && set2 == set, "the block is filtered")
		for i := 0; i < h; i++ {
			for j := 0; j < w; j++ {
				f[i][j] = lBoxed(i, j, pass)
			}
		}
		return f
	}
	ok := vk.Try(func() { t.selfGuidedFilter(0, 1, 2, 4, 4, w, h, s, sh) })
	vk.Assert(ok, "no failure")
	for i := 0; i < 12; i++ {
		for j := 0; j < 12; j++ {
			want := 0
			if i >= 4 && i < 4+h && j >= 4 && j < 4+w {
				u := s.UpscaledCdefFrame[0][i][j] << 4
				f0, f1 := lBoxed(i-4, j-4, false), lBoxed(i-4, j-4, true)
				if lSets[set][0] == 0 {
					f0 = u
				}
				if lSets[set][2] == 0 {
					f1 = u
				}
				v := w1*u + w0*f0 + (128-w0-w1)*f1
				want = lClip1((v+1024)>>11, depth)
			}
			vk.Assert(s.LrFrame[0][i][j] == want, "a restored sample")
		}
	}
	vk.Reach("end")
}

func lBoxed(i, j int, pass bool) int {
	if pass {
		return vk.IntAt("f1", i*4+j, -70000, 140000)
	}
	return vk.IntAt("f0", i*4+j, -70000, 140000)
}
