package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// Limiting and recentring are replaced by branch-free terms; U01 and U02
// decide the real functions.
//
//verif:hook internal/util Clip3
//verif:hook internal/util InverseRecenter
//verif:hook internal/tilegroup readLrUnit

// recenter is the inverse of folding the values around r.
func recenter(r, v int) int {
	return vk.Ite(v > 2*r, v, vk.Ite(v&1 != 0, r-(v+1)>>1, r+v>>1))
}

// nsSpec is a value below n in as few bits as it needs.
func nsSpec(n int) int {
	w := 0
	for n>>w != 0 {
		w++
	}
	m := 1<<w - n
	v := lit(w - 1)
	if v < m {
		return v
	}
	return v<<1 - m + lit(1)
}

func subexpSpec(n, k int) int {
	base := 0
	for i := 0; ; i++ {
		bits := k
		if i > 1 {
			bits = k + i - 1
		}
		if n <= base+3<<bits {
			return base + nsSpec(n-base)
		}
		if lit(1) == 0 {
			return base + lit(bits)
		}
		base += 1 << bits
	}
}

// coefSpec is a coefficient of lo to hi coded around ref.
func coefSpec(lo, hi, k, ref int) int {
	n, r := hi-lo+1, ref-lo
	v := subexpSpec(n, k)
	return lo + vk.Ite(2*r <= n, recenter(r, v), n-1-recenter(n-1-r, v))
}

// The sets of the self-guided filter by their two radii.
func radiusSpec(set, i int) int {
	if i == 0 {
		return vk.Ite(vk.And(set >= 10, set <= 13), 0, 2)
	}
	return vk.Ite(set >= 14, 0, 1)
}

func lrUnit(frameType int) {
	kHooks()
	util.VerifHook_Clip3 = func(lo, hi, x int) int { return vk.Ite(x < lo, lo, vk.Ite(x > hi, hi, x)) }
	util.VerifHook_InverseRecenter = recenter
	t, s, uh := &TileGroup{}, &state.State{}, uncompressedheader.UncompressedHeader{}
	kTables(s)
	plane := vk.Split("plane", vk.Int("plane", 0, 2), 0, 2)
	uh.FrameRestorationType[0], uh.FrameRestorationType[1], uh.FrameRestorationType[2] = 1, 2, 3
	uh.FrameRestorationType[plane] = frameType
	lo, hi := [3]int{-5, -23, -17}, [3]int{10, 8, 46}
	slo, shi := [2]int{-96, -32}, [2]int{31, 95}
	for p := 0; p < 2; p++ {
		for j := 0; j < 3; j++ {
			t.RefLrWiener[plane][p][j] = vk.IntAt("wref", p*3+j, -23, 46)
			vk.Assume(t.RefLrWiener[plane][p][j] >= lo[j])
			vk.Assume(t.RefLrWiener[plane][p][j] <= hi[j])
		}
		t.RefSgrXqd[plane][p] = vk.IntAt("sref", p, -96, 95)
		vk.Assume(t.RefSgrXqd[plane][p] >= slo[p])
		vk.Assume(t.RefSgrXqd[plane][p] <= shi[p])
	}
	wref, sref := t.RefLrWiener, t.RefSgrXqd
	r, c := 3, 2
	ok := vk.Try(func() { t.readLrUnit(plane, r, c, s, &bitstream.BitStream{}, uh) })
	vk.Assert(ok, "no failure")

	kind := 0
	switch frameType {
	case 1:
		kind = sym(idWiener)
	case 2:
		kind = 2 * sym(idSgrproj)
	default:
		kind = sym(idRestType)
	}
	vk.Assert(t.LrType[plane][r][c] == kind, "kind of the unit")
	if kind == 1 {
		for p := 0; p < 2; p++ {
			for j := 0; j < 3; j++ {
				if plane > 0 && j == 0 {
					vk.Assert(t.LrWiener[plane][r][c][p][0] == 0, "chroma has no outer tap")
					continue
				}
				wref[plane][p][j] = coefSpec(lo[j], hi[j], j+1, wref[plane][p][j])
				vk.Assert(t.LrWiener[plane][r][c][p][j] == wref[plane][p][j], "a Wiener tap")
			}
		}
	}
	if kind == 2 {
		set := lit(4)
		vk.Assert(t.LrSgrSet[plane][r][c] == set, "set of the self-guided filter")
		for i := 0; i < 2; i++ {
			v := 0
			if vk.SplitBool("radius", radiusSpec(set, i) != 0) {
				v = coefSpec(slo[i], shi[i], 4, sref[plane][i])
			} else if i == 1 {
				v = vkspec.Clip3(slo[1], shi[1], 128-sref[plane][0])
			}
			sref[plane][i] = v
			vk.Assert(t.LrSgrXqd[plane][r][c][i] == v, "a weight of the self-guided filter")
		}
	}
	for p := 0; p < 2; p++ {
		for j := 0; j < 3; j++ {
			vk.Assert(t.RefLrWiener[plane][p][j] == wref[plane][p][j], "the reference of a tap")
		}
		vk.Assert(t.RefSgrXqd[plane][p] == sref[plane][p], "the reference of a weight")
	}
	kEnd()
	vk.Reach("end")
}

//verif:bounds every plane, every reference within its range, every coded value
//verif:time 300
func VerifK11_wiener() { lrUnit(1) }

//verif:bounds every plane, set and reference, every coded value
//verif:time 300
func VerifK11_guided() { lrUnit(2) }

//verif:bounds every plane, set and reference, every coded value
//verif:time 300
func VerifK11_switched() { lrUnit(3) }

//verif:bounds frames up to 256x256 (512 wide after upscaling), every unit size and format, superblocks of both sizes at 2 by 4 positions, luma, the first chroma plane or all restored, denominators 9, 13 and 16 (all thorough)
//verif:time 400
func VerifK11_units() {
	uh, sh, s := uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}, &state.State{}
	var got [64]int
	n := 0
	vk.Pin(&n)
	VerifHook_readLrUnit = func(t *TileGroup, plane, row, col int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
		got[n] = plane*10000 + row*100 + col
		n++
	}
	sub := vk.Split("sub", vk.Int("sub", 0, 3), 0, 3)
	sh.ColorConfig.NumPlanes = 3
	if sub == 3 {
		sh.ColorConfig.NumPlanes = 1
	}
	sx, sy := 0, 0
	if sub >= 1 {
		sh.ColorConfig.SubsamplingX = true
		sx = 1
	}
	if sub >= 2 {
		sh.ColorConfig.SubsamplingY = true
		sy = 1
	}
	uh.AllowIntraBc = vk.SplitBool("ibc", vk.Bool("ibc"))
	vk.Assume(!uh.AllowIntraBc || sub == 2)
	uh.UseSuperRes = vk.SplitBool("superres", vk.Bool("superres"))
	vk.Assume(!uh.UseSuperRes || !uh.AllowIntraBc)
	uh.SuperResDenom = 8
	if uh.UseSuperRes {
		uh.SuperResDenom = vk.Split("denom", vk.Int("denom", 9, 16), 9, 16)
		vk.Assume(vk.Or(vk.Thorough(), uh.SuperResDenom == 9 || uh.SuperResDenom == 13 || uh.SuperResDenom == 16))
	}
	uh.FrameHeight = vk.Int("height", 1, 256)
	uh.UpscaledWidth = vk.Int("width", 16, 512)
	vk.Assume(uh.UpscaledWidth*8+uh.SuperResDenom/2 < 257*uh.SuperResDenom)
	miRows := 2 * ((uh.FrameHeight + 7) >> 3)
	miCols := 2 * (((uh.UpscaledWidth*8+uh.SuperResDenom/2)/uh.SuperResDenom + 7) >> 3)
	plane := vk.Split("plane", vk.Int("plane", 0, 3), 0, 3)
	vk.Assume(plane < 2 || plane == 3 && sub >= 2)
	for p := 0; p < 3; p++ {
		if plane == p || plane == 3 {
			uh.FrameRestorationType[p] = 1 + p
		}
	}
	size := 64 << vk.Split("size", vk.Int("size", 0, 2), 0, 2)
	uvShift := vk.Split("uvshift", vk.Int("uvshift", 0, 1), 0, 1)
	vk.Assume(uvShift == 0 || sx&sy == 1)
	vk.Assume(size>>uvShift >= 32)
	s.LoopRestorationSize[0] = size
	s.LoopRestorationSize[1], s.LoopRestorationSize[2] = size>>uvShift, size>>uvShift
	big := vk.Split("big", vk.Int("big", 0, 1), 0, 1)
	bw := 16 << big
	r := vk.Split("r", vk.Int("r", 0, 1), 0, 1) * bw
	c := vk.Split("c", vk.Int("c", 0, 3), 0, 3) * bw
	vk.Assume(r < miRows)
	vk.Assume(c < miCols)
	t := &TileGroup{}
	ok := vk.Try(func() { t.readLr(r, c, 12+3*big, &bitstream.BitStream{}, s, uh, sh) })
	vk.Assert(ok, "no failure")

	// A unit belongs to the superblock that holds its upper left corner.
	at := 0
	vk.Pin(&at)
	for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
		if uh.AllowIntraBc || uh.FrameRestorationType[p] == 0 {
			continue
		}
		x, y := 0, 0
		if p > 0 {
			x, y = sx, sy
		}
		unit := s.LoopRestorationSize[p]
		half := unit / 2
		rows := ((uh.FrameHeight+y)>>y + half) / unit
		cols := ((uh.UpscaledWidth+x)>>x + half) / unit
		for row := 0; row < 9; row++ {
			top := row * unit
			if top < r*4>>y || top >= (r+bw)*4>>y {
				continue
			}
			for col := 0; col < 17; col++ {
				left, scale := col*unit*8, uh.SuperResDenom*4>>x
				if left < c*scale || left >= (c+bw)*scale {
					continue
				}
				if vk.SplitBool("in", vk.And(vk.Or(row == 0, row < rows), vk.Or(col == 0, col < cols))) {
					vk.Assert(at < n, "a unit is missing")
					if at < n {
						vk.Assert(got[at] == p*10000+row*100+col, "units in order")
						at++
					}
				}
			}
		}
	}
	vk.Assert(at == n, "a unit too many")
	vk.Reach("end")
}
