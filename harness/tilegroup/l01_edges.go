package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

// Each harness replaces the layer below the one it decides by a recorder.
//
//verif:hook internal/tilegroup loopFilterEdge
//verif:hook internal/tilegroup adaptiveFilterStrength
//verif:hook internal/tilegroup sampleFiltering
//verif:hook internal/util Clip3
//verif:hook internal/util Max

//verif:bounds frames of up to 6 by 6 units of 4 samples, every format, chroma levels zero or not
func VerifL01_walk() {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	sx, sy := lFormat(&sh)
	s.MiRows = 2 * vk.Split("rows", vk.Int("rows", 1, 3), 1, 3)
	s.MiCols = 2 * vk.Split("cols", vk.Int("cols", 1, 3), 1, 3)
	uh.LoopFilterLevel[0], uh.LoopFilterLevel[1] = 3, 0
	for i := 2; i < 4; i++ {
		uh.LoopFilterLevel[i] = vk.IntAt("level", i, 0, 63)
	}
	var got [256]int
	n := 0
	vk.Pin(&n)
	VerifHook_loopFilterEdge = func(t *TileGroup, plane int, pass bool, row, col int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State) {
		k := plane*1000 + row*10 + col
		if pass {
			k += 100
		}
		got[n] = k
		n++
	}
	ok := vk.Try(func() { t.loopFilter(s, uh, sh) })
	vk.Assert(ok, "no failure")
	at := 0
	vk.Pin(&at)
	for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
		if p > 0 && vk.SplitBool("off", uh.LoopFilterLevel[p+1] == 0) {
			continue
		}
		for pass := 0; pass < 2; pass++ {
			for r := 0; r < s.MiRows; r++ {
				for c := 0; c < s.MiCols; c++ {
					if p > 0 && (r&sy != 0 || c&sx != 0) {
						continue
					}
					vk.Assert(at < n && got[at] == p*1000+pass*100+r*10+c, "edges in order, vertical ones of the plane first")
					at++
				}
			}
		}
	}
	vk.Assert(at == n, "an edge too many")
	vk.Reach("end")
}

// lEdge decides the edges of one direction.
func lEdge(pass int) {
	t, s, uh, sh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	sx, sy := lFormat(&sh)
	plane := vk.Split("plane", vk.Int("plane", 0, 2), 0, 2)
	vk.Assume(plane < sh.ColorConfig.NumPlanes)
	if plane == 0 {
		sx, sy = 0, 0
	}
	r := vk.Split("row", vk.Int("row", 0, 6), 0, 6)
	c := vk.Split("col", vk.Int("col", 0, 6), 0, 6)
	// One position along the edge is enough, besides the corner.
	along, across := c, r
	if pass == 0 {
		along, across = r, c
	}
	vk.Assume(along == 0 || along == 2 || along == 3 && plane == 0)
	_ = across
	vk.Assume(r&sy == 0 && c&sx == 0)
	uh.FrameWidth, uh.FrameHeight = vk.Int("width", 1, 40), vk.Int("height", 1, 40)
	br, bc := r|sy, c|sx
	pr, pc := br, bc
	if pass == 0 {
		pc -= 1 << sx
	} else {
		pr -= 1 << sy
	}
	size := vk.Int("size", 0, 21)
	s.MiSizes[br][bc] = size
	if sh.ColorConfig.SubsamplingX && !sh.ColorConfig.SubsamplingY {
		// 4:2:2 has no tall blocks.
		vk.Assume(lH[size] <= lW[size])
	}
	tx := vk.Int("tx", 0, 18)
	t.LoopFilterTxSizes[plane][br>>sy][bc>>sx] = tx
	ptx := vk.Int("ptx", 0, 18)
	first := pr < 0 || pc < 0
	if !first {
		t.LoopFilterTxSizes[plane][pr>>sy][pc>>sx] = ptx
	}
	t.Skips[br][bc] = vk.Int("skip", 0, 1)
	s.RefFrames[br][bc][0] = vk.Int("ref", 0, 7)
	lvl, plvl := vk.Int("lvl", 0, 63), vk.Int("plvl", 0, 63)
	VerifHook_adaptiveFilterStrength = func(t *TileGroup, row, col, p int, ps bool, s *state.State, uh uncompressedheader.UncompressedHeader) (int, int, int, int) {
		vk.Assert(p == plane && ps == (pass == 1), "strength of the same plane and direction")
		if row == br && col == bc {
			return lvl, lvl + 100, lvl + 200, lvl + 300
		}
		vk.Assert(row == pr && col == pc, "strength of the block or of the one before it")
		return plvl, plvl + 100, plvl + 200, plvl + 300
	}
	n := 0
	vk.Pin(&n)
	var gx, gy, gl, gs [8]int
	VerifHook_sampleFiltering = func(t *TileGroup, x, y, p, limit, blimit, thresh, dx, dy, size int, s *state.State, sh sequenceheader.SequenceHeader) {
		vk.Assert(p == plane && dx == 1-pass && dy == pass, "samples across the edge")
		vk.Assert(vk.And(blimit == limit+100, thresh == limit+200), "limits of one strength")
		gx[n], gy[n], gl[n], gs[n] = x, y, limit-100, size
		n++
	}
	ok := vk.Try(func() { t.loopFilterEdge(plane, pass == 1, r, c, sh, uh, s) })
	vk.Assert(ok, "no failure")

	// Sizes of the block in the plane; chroma has at least 4 samples.
	bw := vk.Ite(lW[size]>>sx < 4, 4, lW[size]>>sx)
	bh := vk.Ite(lH[size]>>sy < 4, 4, lH[size]>>sy)
	x, y := c*4>>sx, r*4>>sy
	on := vk.And(c*4 < uh.FrameWidth, r*4 < uh.FrameHeight)
	pos, b, tw, pw := x, bw, lTxW[tx], lTxW[ptx]
	if pass == 1 {
		pos, b, tw, pw = y, bh, lTxH[tx], lTxH[ptx]
	}
	level := vk.Ite(lvl == 0, plvl, lvl)
	inside := vk.And(t.Skips[br][bc] == 1, s.RefFrames[br][bc][0] > 0)
	want := vk.And(on, vk.And(pos > 0, vk.And(pos&(tw-1) == 0, vk.And(vk.Or(pos&(b-1) == 0, !inside), level > 0))))
	if !vk.SplitBool("filtered", want) {
		vk.Assert(n == 0, "an edge is filtered that is none")
		vk.Reach("not filtered")
		return
	}
	vk.Assert(n == 4, "four samples along the edge")
	most := 16
	if plane > 0 {
		most = 8
	}
	width := vk.Ite(tw < pw, tw, pw)
	width = vk.Ite(width < most, width, most)
	for i := 0; i < 4; i++ {
		if pass == 0 {
			vk.Assert(gx[i] == x && gy[i] == y+i, "samples along a vertical edge")
		} else {
			vk.Assert(gx[i] == x+i && gy[i] == y, "samples along a horizontal edge")
		}
		vk.Assert(gl[i] == level, "strength, from the block before if this one has none")
		vk.Assert(gs[i] == width, "as wide as the smaller transform, up to a limit")
	}
	vk.Reach("filtered")
}

//verif:bounds columns 0..6 in rows 0, 2 and 3 of frames up to 40x40, every format, block, transform size and strength on both sides
//verif:time 300
func VerifL01_vertical() { lEdge(0) }

//verif:bounds rows 0..6 in columns 0, 2 and 3 of frames up to 40x40, every format, block, transform size and strength on both sides
//verif:time 300
func VerifL01_horizontal() { lEdge(1) }

//verif:bounds every level, delta, feature, reference and mode; both directions, every plane
//verif:time 300
func VerifL01_strength() {
	clip := func(lo, hi, x int) int { return vk.Ite(x < lo, lo, vk.Ite(x > hi, hi, x)) }
	util.VerifHook_Clip3 = clip
	util.VerifHook_Max = func(a, b int) int { return vk.Ite(a < b, b, a) }
	t, s, uh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}
	plane := vk.Split("plane", vk.Int("plane", 0, 2), 0, 2)
	pass := vk.Split("pass", vk.Int("pass", 0, 1), 0, 1)
	i := plane + 1
	if plane == 0 {
		i = pass
	}
	seg := vk.Split("seg", vk.Int("seg", 0, 1), 0, 1) * 5
	r, c := 3, 5
	t.SegmentIds[r][c] = seg
	ref := vk.Int("ref", 0, 7)
	s.RefFrames[r][c][0] = ref
	mode := vk.Int("mode", 0, 25)
	t.YModes[r][c] = mode
	for j := 0; j < 4; j++ {
		s.DeltaLFs[r][c][j] = vk.IntAt("delta", j, -63, 63)
		uh.LoopFilterLevel[j] = vk.IntAt("level", j, 0, 63)
	}
	uh.DeltaLfMulti = vk.Int("multi", 0, 1)
	uh.LoopFilterSharpness = vk.Split("sharp", vk.Int("sharp", 0, 7), 0, 7)
	uh.SegmentationEnabled = vk.Bool("segments")
	s.FeatureEnabled[seg][1+i] = vk.Int("enabled", 0, 1)
	s.FeatureData[seg][1+i] = vk.Int("data", -63, 63)
	uh.LoopFilterDeltaEnabled = vk.Bool("deltas")
	for j := 0; j < 8; j++ {
		uh.LoopFilterRefDeltas[j] = vk.IntAt("refdelta", j, -64, 63)
	}
	for j := 0; j < 2; j++ {
		uh.LoopFilterModeDeltas[j] = vk.IntAt("modedelta", j, -64, 63)
	}
	lvl, limit, blimit, thresh := 0, 0, 0, 0
	ok := vk.Try(func() { lvl, limit, blimit, thresh = t.adaptiveFilterStrength(r, c, plane, pass == 1, s, uh) })
	vk.Assert(ok, "no failure")

	want := clip(0, 63, uh.LoopFilterLevel[i]+vk.Ite(uh.DeltaLfMulti == 1, s.DeltaLFs[r][c][i], s.DeltaLFs[r][c][0]))
	feature := vk.And(uh.SegmentationEnabled, s.FeatureEnabled[seg][1+i] == 1)
	want = vk.Ite(feature, clip(0, 63, want+s.FeatureData[seg][1+i]), want)
	// Predictions from another frame with a motion of their own.
	moved := vk.Ite(vk.And(mode >= 14, vk.And(mode != 16, mode != 24)), 1, 0)
	scale := vk.Ite(want < 32, 1, 2)
	change := uh.LoopFilterRefDeltas[ref] + vk.Ite(ref == 0, 0, uh.LoopFilterModeDeltas[moved])
	want = vk.Ite(uh.LoopFilterDeltaEnabled, clip(0, 63, want+scale*change), want)
	vk.Assert(lvl == want, "filter level")
	k := uh.LoopFilterSharpness
	shift, most := 0, 63
	if k > 0 {
		shift, most = 1, 9-k
	}
	if k > 4 {
		shift = 2
	}
	vk.Assert(limit == clip(1, most, lvl>>shift), "limit of differences")
	vk.Assert(blimit == 2*lvl+4+limit, "limit at the edge")
	vk.Assert(thresh == lvl>>4, "threshold of high variance")
	vk.Reach("end")
}
