package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

// Each harness replaces the layer below the one it decides by a recorder.
//
//verif:hook internal/tilegroup cdefBlock
//verif:hook internal/tilegroup cdefDirection
//verif:hook internal/tilegroup cdefFilter
//verif:hook internal/tilegroup constrain
//verif:hook internal/util Clip3
//verif:hook internal/util Min
//verif:hook internal/util Max
//verif:hook internal/util Abs
//verif:hook internal/util FloorLog2
//verif:hook internal/util Int

//verif:bounds frames of 2 to 34 units of 4 samples each way, every filter choice in each 64x64
//verif:loop 2000
func VerifL03_walk() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	s.MiRows = 2 * vk.Split("rows", vk.Int("rows", 1, 17), 1, 17)
	s.MiCols = 2 * vk.Split("cols", vk.Int("cols", 1, 17), 1, 17)
	vk.Assume(s.MiRows == 2 || s.MiRows == 16 || s.MiRows > 30 || s.MiCols == 18)
	s.Cdef.CdefIdx = make([][]int, 48)
	for i := range s.Cdef.CdefIdx {
		s.Cdef.CdefIdx[i] = make([]int, 48)
		for j := range s.Cdef.CdefIdx[i] {
			s.Cdef.CdefIdx[i][j] = 99
			if i%16 == 0 && j%16 == 0 {
				s.Cdef.CdefIdx[i][j] = vk.IntAt("idx", i/16*3+j/16, -1, 7)
			}
		}
	}
	var seen [48][48]int
	n := 0
	vk.Pin(&n)
	VerifHook_cdefBlock = func(t *TileGroup, r, c, idx int, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		vk.Assert(r%2 == 0 && c%2 == 0 && seen[r][c] == 0, "every 8x8 block once")
		seen[r][c] = 1
		vk.Assert(idx == s.Cdef.CdefIdx[r&^15][c&^15], "the choice of the 64x64 around the block")
		n++
	}
	ok := vk.Try(func() { t.cdefProcess(s, sh, uh) })
	vk.Assert(ok, "no failure")
	vk.Assert(n == s.MiRows*s.MiCols/4, "every block")
	vk.Reach("end")
}

//verif:bounds every format, depth, strength, damping, direction and variance; skipped or not
//verif:time 300
func VerifL03_block() {
	util.VerifHook_Min = func(a, b int) int { return vk.Ite(a < b, a, b) }
	util.VerifHook_FloorLog2 = flog2
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	sx, sy := lFormat(&sh)
	shift := 2 * vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = 8 + shift
	r, c := 2, 2
	s.CurrFrame = lFrame(24, 24, "y", "u", "v")
	s.CdefFrame = state.NewFrame(24, 24)
	idx := vk.Split("idx", vk.Int("idx", -1, 2), -1, 2)
	pri, sec, upri, usec := vk.Int("pri", 0, 15), vk.Int("sec", 0, 4), vk.Int("upri", 0, 15), vk.Int("usec", 0, 4)
	uh.CdefYPriStrength, uh.CdefYSecStrength = make([]int, 8), make([]int, 8)
	uh.CdefUVPriStrength, uh.CdefUVSecStrength = make([]int, 8), make([]int, 8)
	if idx >= 0 {
		uh.CdefYPriStrength[idx], uh.CdefYSecStrength[idx] = pri, sec
		uh.CdefUVPriStrength[idx], uh.CdefUVSecStrength[idx] = upri, usec
	}
	uh.CdefDampening = vk.Int("damping", 3, 6)
	allSkip := true
	for i := 0; i < 4; i++ {
		t.Skips[r+i/2][c+i%2] = vk.IntAt("skip", i, 0, 1)
		allSkip = vk.And(allSkip, t.Skips[r+i/2][c+i%2] == 1)
	}
	dir := vk.Int("dir", 0, 7)
	variance := vk.Int("variance", 0, 1<<24)
	VerifHook_cdefDirection = func(t *TileGroup, row, col int, s *state.State, sh sequenceheader.SequenceHeader) (int, int) {
		vk.Assert(row == r && col == c, "the direction of this block")
		return dir, variance
	}
	n := 0
	vk.Pin(&n)
	var got [3][4]int
	VerifHook_cdefFilter = func(t *TileGroup, plane, row, col, pri, sec, damping, dir int, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		vk.Assert(plane == n && row == r && col == c, "planes in order")
		y, x := 8, 8
		if plane > 0 {
			y, x = 8>>sy, 8>>sx
		}
		vk.Assert(s.CdefFrame[plane][y][x] == s.CurrFrame[plane][y][x], "samples are copied first")
		got[n] = [4]int{pri, sec, damping, dir}
		n++
	}
	ok := vk.Try(func() { t.cdefBlock(r, c, idx, s, sh, uh) })
	vk.Assert(ok, "no failure")

	for p := 0; p < 3; p++ {
		x, y, w, h := 8, 8, 8, 8
		if p > 0 {
			x, w, y, h = x>>sx, w>>sx, y>>sy, h>>sy
		}
		for i := 0; i < 24; i++ {
			for j := 0; j < 24; j++ {
				want := 0
				if p < sh.ColorConfig.NumPlanes && i >= y && i < y+h && j >= x && j < x+w {
					want = s.CurrFrame[p][i][j]
				}
				vk.Assert(s.CdefFrame[p][i][j] == want, "unfiltered samples are copied")
			}
		}
	}
	if idx == -1 || vk.SplitBool("skipped", allSkip) {
		vk.Assert(n == 0, "nothing to filter")
		vk.Reach("not filtered")
		return
	}
	vk.Assert(n == sh.ColorConfig.NumPlanes, "every plane is filtered")
	v := flog2(variance >> 6)
	v = vk.Ite(variance>>6 == 0, 0, vk.Ite(v < 12, v, 12))
	strength := vk.Ite(variance == 0, 0, ((pri<<shift)*(4+v)+8)>>4)
	vk.Assert(got[0][0] == strength, "luma strength depends on the variance")
	vk.Assert(got[0][1] == sec<<shift, "secondary strength")
	vk.Assert(got[0][2] == uh.CdefDampening+shift, "damping of luma")
	vk.Assert(got[0][3] == vk.Ite(pri == 0, 0, dir), "direction of luma")
	// Directions of half as many columns or rows.
	wide := [8]int{7, 0, 2, 4, 5, 6, 6, 6}
	cdir := dir
	if sx == 1 && sy == 0 {
		cdir = wide[dir]
	}
	for p := 1; p < n; p++ {
		vk.Assert(got[p][0] == upri<<shift, "chroma strength")
		vk.Assert(got[p][1] == usec<<shift, "secondary strength of chroma")
		vk.Assert(got[p][2] == uh.CdefDampening+shift-1, "damping of chroma")
		vk.Assert(got[p][3] == vk.Ite(upri == 0, 0, cdir), "direction of chroma")
	}
	vk.Reach("filtered")
}

// flog2 is the index of the highest bit.
func flog2(x int) int {
	r := 0
	for i := 1; i < 26; i++ {
		r = vk.Ite(x>>i != 0, i, r)
	}
	return r
}

//verif:bounds every 8x8 block of samples of 8, 10 and 12 bits
//verif:time 300
func VerifL03_direction() {
	t, s, sh := &TileGroup{}, &state.State{}, sequenceheader.SequenceHeader{}
	shift := 2 * vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = 8 + shift
	s.CurrFrame = lFrame(16, 16, "y")
	var v [8][8]int
	for i := range v {
		for j := range v {
			vk.Assume(s.CurrFrame[0][8+i][8+j] < 256<<shift)
			v[i][j] = s.CurrFrame[0][8+i][8+j]>>shift - 128
		}
	}
	dir, variance := 0, 0
	ok := vk.Try(func() { dir, variance = t.cdefDirection(2, 2, s, sh) })
	vk.Assert(ok, "no failure")

	// The line of each sample in each direction; lines of n samples weigh
	// 840/n.
	line := [8]func(i, j int) int{
		func(i, j int) int { return i + j },
		func(i, j int) int { return i + j/2 },
		func(i, j int) int { return i },
		func(i, j int) int { return 3 + i - j/2 },
		func(i, j int) int { return 7 + i - j },
		func(i, j int) int { return 3 - i/2 + j },
		func(i, j int) int { return j },
		func(i, j int) int { return i/2 + j },
	}
	var cost [8]int
	for d := 0; d < 8; d++ {
		var sum, n [15]int
		for i := 0; i < 8; i++ {
			for j := 0; j < 8; j++ {
				k := line[d](i, j)
				sum[k] += v[i][j]
				n[k]++
			}
		}
		for k := 0; k < 15; k++ {
			if n[k] > 0 {
				cost[d] += sum[k] * sum[k] * (840 / n[k])
			}
		}
	}
	best, at := 0, 0
	for d := 0; d < 8; d++ {
		better := cost[d] > best
		at = vk.Ite(better, d, at)
		best = vk.Ite(better, cost[d], best)
	}
	vk.Assert(dir == at, "the direction of least variance")
	vk.Assert(variance == (best-cost[(at+4)&7])>>10, "how much better than across")
	vk.Reach("end")
}

//verif:bounds every difference of 12 bits, threshold up to 255 and damping 2 to 10
//verif:time 300
func VerifL03_constrain() {
	b := vk.Bool("b")
	vk.Assert(util.Int(b) == vk.Ite(b, 1, 0), "a condition as a number")
	d, th, damp := vk.Int("d", -4095, 4095), vk.Int("th", 0, 255), vk.Int("damp", 2, 10)
	th = vk.Split("th", th, 0, 255)
	damp = vk.Split("damp", damp, 2, 10)
	vk.Assert(constrain(d, th, damp) == lConstrain(d, th, damp), "limiting a difference")
	vk.Reach("end")
}

// lConstrain lets small differences pass and fades large ones out.
func lConstrain(d, th, damp int) int {
	log := flog2(th)
	m := vk.Ite(d < 0, -d, d)
	fade := th - m>>uint(vk.Ite(damp < log, 0, damp-log))
	v := vk.Ite(fade < 0, 0, vk.Ite(fade > m, m, fade))
	return vk.Ite(th == 0, 0, vk.Ite(d < 0, -v, v))
}

// lFilter filters the block at 4-sample position r, c of a frame of 24x24
// samples.
func lFilter(r, c int) {
	util.VerifHook_Min = func(a, b int) int { return vk.Ite(a < b, a, b) }
	util.VerifHook_Max = func(a, b int) int { return vk.Ite(a < b, b, a) }
	util.VerifHook_Clip3 = func(lo, hi, x int) int { return vk.Ite(x < lo, lo, vk.Ite(x > hi, hi, x)) }
	util.VerifHook_Int = func(b bool) int { return vk.Ite(b, 1, 0) }
	VerifHook_constrain = lConstrain
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	sx, sy := lFormat(&sh)
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	vk.Assume(plane < sh.ColorConfig.NumPlanes)
	vk.Assume(plane > 0 || sx&sy == 1)
	if plane == 0 {
		sx, sy = 0, 0
	}
	depth := 8 + 2*vk.Split("depth", vk.Int("depth", 0, 2), 0, 2)
	sh.ColorConfig.BitDepth = depth
	s.MiRows, s.MiCols = 6, 6
	s.CurrFrame[plane] = lFrame(24, 24, "y")[0]
	s.CdefFrame = state.NewFrame(24, 24)
	pri, sec, damp := vk.Int("pri", 0, 240), vk.Int("sec", 0, 64), vk.Int("damp", 2, 10)
	dir := vk.Split("dir", vk.Int("dir", 0, 7), 0, 7)
	ok := vk.Try(func() { t.cdefFilter(plane, r, c, pri, sec, damp, dir, s, sh, uh) })
	vk.Assert(ok, "no failure")

	// Taps along a direction are one and two steps away, on both sides.
	dirs := [8][2][2]int{
		{{-1, 1}, {-2, 2}}, {{0, 1}, {-1, 2}}, {{0, 1}, {0, 2}}, {{0, 1}, {1, 2}},
		{{1, 1}, {2, 2}}, {{1, 0}, {2, 1}}, {{1, 0}, {2, 0}}, {{1, 0}, {2, -1}},
	}
	taps := [2][2]int{{4, 2}, {3, 3}}[(pri>>(depth-8))&1]
	x0, y0, w, h := c*4>>sx, r*4>>sy, 8>>sx, 8>>sy
	pw, ph := 24>>sx, 24>>sy
	frame := s.CurrFrame[plane]
	for y := 0; y < 24; y++ {
		for x := 0; x < 24; x++ {
			want := 0
			if y >= y0 && y < y0+h && x >= x0 && x < x0+w {
				v := frame[y][x]
				sum, lo, hi := 0, v, v
				add := func(d, k, sign, weight, strength int) {
					ty, tx := y+sign*dirs[d][k][0], x+sign*dirs[d][k][1]
					if ty < 0 || tx < 0 || ty >= ph || tx >= pw {
						return
					}
					p := frame[ty][tx]
					sum += weight * lConstrain(p-v, strength, damp)
					hi, lo = vk.Ite(p < hi, hi, p), vk.Ite(p < lo, p, lo)
				}
				for k := 0; k < 2; k++ {
					for sign := -1; sign <= 1; sign += 2 {
						add(dir, k, sign, taps[k], pri)
						add((dir+6)&7, k, sign, 2-k, sec)
						add((dir+2)&7, k, sign, 2-k, sec)
					}
				}
				n := v + (8+sum-vk.Ite(sum < 0, 1, 0))>>4
				want = vk.Ite(n < lo, lo, vk.Ite(n > hi, hi, n))
			}
			vk.Assert(s.CdefFrame[plane][y][x] == want, "a filtered sample")
		}
	}
	vk.Reach("end")
}

//verif:bounds a block inside the frame, all directions, formats, depths, strengths and dampings
//verif:time 300
func VerifL03_middle() { lFilter(2, 2) }

//verif:bounds blocks in two corners of the frame, all directions, formats, depths, strengths and dampings
//verif:time 300
func VerifL03_corners() {
	k := vk.Split("corner", vk.Int("corner", 0, 1), 0, 1)
	lFilter(4*k, 4-4*k)
}
