package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// Block dimensions in 4-sample units, by block size number.
var specW4 = []int{1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16}
var specH4 = []int{1, 2, 1, 2, 4, 2, 4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 4, 1, 8, 2, 16, 4}

// kBlk is everything the syntax of one block depends on and sets.
type kBlk struct {
	t  TileGroup
	s  state.State
	u  uncompressedheader.UncompressedHeader
	sh sequenceheader.SequenceHeader
	b  bitstream.BitStream

	cdef int
}

// intraBlock makes a block of an intra frame at 4-sample position (1,1) with
// arbitrary availability and arbitrary neighbours.
func intraBlock(x *kBlk, sizeLo, sizeHi int) {
	kHooks()
	kTables(&x.s)
	x.s.MiRow, x.s.MiCol = 1, 1
	x.s.MiRows, x.s.MiCols = 64, 64
	x.s.AvailU = vk.Bool("availU")
	x.s.AvailL = vk.Bool("availL")
	x.s.MiSize = vk.Int("size", sizeLo, sizeHi)
	x.t.HasChroma = vk.Bool("chroma")
	x.sh.ColorConfig.NumPlanes = 1 + 2*vk.Int("planes3", 0, 1)
	x.u.FrameIsIntra = true
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			x.t.Skips[i][j] = vk.IntAt("skips", i*2+j, 0, 1)
			x.t.SegmentIds[i][j] = vk.IntAt("segs", i*2+j, 0, 7)
			x.t.YModes[i][j] = vk.IntAt("ymodes", i*2+j, 0, 12)
		}
	}
	x.s.Cdef.CdefIdx = make([][]int, 33)
	for i := range x.s.Cdef.CdefIdx {
		x.s.Cdef.CdefIdx[i] = make([]int, 33)
	}
	x.s.Cdef.CdefIdx[0][0] = vk.Int("cdef0", -1, 7)
	x.s.Cdef.CdefIdx[0][16] = vk.Int("cdef1", -1, 7)
	x.s.Cdef.CdefIdx[16][0] = vk.Int("cdef2", -1, 7)
	x.s.Cdef.CdefIdx[16][16] = vk.Int("cdef3", -1, 7)
	x.u.CodedLossless = true // no CDEF index unless a harness says so
}

// specBlk holds what the reference reader found.
type specBlk struct {
	seg, skip, lossless, qidx                  int
	lf                                         [4]int
	cdef                                       [4]int
	ymode, uvmode, angleY, angleUV, cflU, cflV int
	copied, useFilter, filterMode              int
}

func segSpec(x *kBlk, skip int) int {
	if !x.u.SegmentationEnabled {
		return 0
	}
	ul, u, l := -1, -1, -1
	if x.s.AvailU && x.s.AvailL {
		ul = x.t.SegmentIds[0][0]
	}
	if x.s.AvailU {
		u = x.t.SegmentIds[0][1]
	}
	if x.s.AvailL {
		l = x.t.SegmentIds[1][0]
	}
	pred := l
	if u == -1 {
		if l == -1 {
			pred = 0
		}
	} else if l == -1 || ul == u {
		pred = u
	}
	if skip == 1 {
		return pred
	}
	ctx := 0
	if ul < 0 {
	} else if ul == u && ul == l {
		ctx = 2
	} else if ul == u || ul == l || u == l {
		ctx = 1
	}
	v := sym(idSegId + ctx)
	return vkspec.Clip3(0, x.u.LastActiveSegId, negDeint(v, pred, x.u.LastActiveSegId+1))
}

func negDeint(diff, ref, max int) int {
	if ref == 0 {
		return diff
	}
	if ref >= max-1 {
		return max - diff - 1
	}
	if 2*ref < max {
		if diff <= 2*ref {
			if diff&1 == 1 {
				return ref + ((diff + 1) >> 1)
			}
			return ref - (diff >> 1)
		}
		return diff
	}
	if diff <= 2*(max-ref-1) {
		if diff&1 == 1 {
			return ref + ((diff + 1) >> 1)
		}
		return ref - (diff >> 1)
	}
	return max - (diff + 1)
}

func skipSpec(x *kBlk, seg int) int {
	if x.u.SegIdPreSkip == 1 && x.u.SegmentationEnabled && x.s.FeatureEnabled[seg][6] == 1 {
		return 1
	}
	ctx := 0
	if x.s.AvailU {
		ctx += x.t.Skips[0][1]
	}
	if x.s.AvailL {
		ctx += x.t.Skips[1][0]
	}
	return sym(idSkip + ctx)
}

func cdefSpec(x *kBlk, r *specBlk) {
	r.cdef[0] = x.s.Cdef.CdefIdx[0][0]
	r.cdef[1] = x.s.Cdef.CdefIdx[0][16]
	r.cdef[2] = x.s.Cdef.CdefIdx[16][0]
	r.cdef[3] = x.s.Cdef.CdefIdx[16][16]
	if r.skip == 1 || x.u.CodedLossless || !x.sh.EnableCdef || x.u.AllowIntraBc {
		return
	}
	if r.cdef[0] == -1 {
		v := lit(x.u.CdefBits)
		r.cdef[0] = v
		if specW4[x.s.MiSize] == 32 {
			r.cdef[1] = v
		}
		if specH4[x.s.MiSize] == 32 {
			r.cdef[2] = v
		}
		if specW4[x.s.MiSize] == 32 && specH4[x.s.MiSize] == 32 {
			r.cdef[3] = v
		}
	}
}

func sbSpec(x *kBlk) int {
	if x.sh.Use128x128SuperBlock {
		return 15
	}
	return 12
}

func deltaSpec(x *kBlk, r *specBlk) {
	r.qidx = x.s.CurrentQIndex
	for i := 0; i < 4; i++ {
		r.lf[i] = x.s.DeltaLF[i]
	}
	if x.s.MiSize == sbSpec(x) && r.skip == 1 {
		return
	}
	if !x.s.ReadDeltas {
		return
	}
	abs := sym(idDeltaQ)
	if abs == 3 {
		rem := lit(3) + 1
		abs = lit(rem) + (1 << rem) + 1
	}
	if abs != 0 {
		if lit(1) == 1 {
			abs = -abs
		}
		r.qidx = vkspec.Clip3(1, 255, r.qidx+(abs<<x.u.DeltaQRes))
	}
	if !x.u.DeltaLfPresent {
		return
	}
	n := 1
	if x.u.DeltaLfMulti == 1 {
		n = 2
		if x.sh.ColorConfig.NumPlanes > 1 {
			n = 4
		}
	}
	for i := 0; i < n; i++ {
		id := idDeltaLF
		if x.u.DeltaLfMulti == 1 {
			id = idDeltaLFMulti + i
		}
		abs := sym(id)
		if abs == 3 {
			m := lit(3) + 1
			abs = lit(m) + (1 << m) + 1
		}
		if abs != 0 {
			if lit(1) == 1 {
				abs = -abs
			}
			r.lf[i] = vkspec.Clip3(-63, 63, r.lf[i]+(abs<<x.u.DeltaLfRes))
		}
	}
}

var intraModeCtx = []int{0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0}

func angleSpec(x *kBlk, mode int) int {
	if x.s.MiSize >= 3 && mode >= 1 && mode <= 8 {
		return sym(idAngle+mode-1) - 3
	}
	return 0
}

// modesSpec reads the luma and chroma modes; yid is the luma table row.
func modesSpec(x *kBlk, r *specBlk, yid int) {
	r.ymode = sym(yid)
	r.angleY = angleSpec(x, r.ymode)
	r.uvmode, r.cflU, r.cflV, r.angleUV = x.t.UVMode, x.t.CflAlphaU, x.t.CflAlphaV, x.t.AngleDeltaUV
	if !x.t.HasChroma {
		return
	}
	w, h := specW4[x.s.MiSize], specH4[x.s.MiSize]
	allowed := w <= 8 && h <= 8
	if r.lossless == 1 {
		if x.sh.ColorConfig.SubsamplingX {
			w = (w + 1) / 2
		}
		if x.sh.ColorConfig.SubsamplingY {
			h = (h + 1) / 2
		}
		allowed = w == 1 && h == 1
	}
	if allowed {
		r.uvmode = sym(idUVCfl + r.ymode)
	} else {
		r.uvmode = sym(idUVNot + r.ymode)
	}
	if r.uvmode == 13 {
		j := sym(idCflSign) + 1
		su, sv := j/3, j%3
		r.cflU, r.cflV = 0, 0
		if su != 0 {
			r.cflU = 1 + sym(idCflAlpha+(su-1)*3+sv)
			if su == 1 {
				r.cflU = -r.cflU
			}
		}
		if sv != 0 {
			r.cflV = 1 + sym(idCflAlpha+(sv-1)*3+su)
			if sv == 1 {
				r.cflV = -r.cflV
			}
		}
	}
	r.angleUV = angleSpec(x, r.uvmode)
}

func intraSpec(x *kBlk, r *specBlk) {
	if x.u.SegIdPreSkip == 1 {
		r.seg = segSpec(x, 0)
	}
	r.skip = skipSpec(x, r.seg)
	if x.u.SegIdPreSkip == 0 {
		r.seg = segSpec(x, r.skip)
	}
	if x.u.LosslessArray[r.seg] {
		r.lossless = 1
	}
	cdefSpec(x, r)
	deltaSpec(x, r)
	if x.u.AllowIntraBc {
		r.copied = sym(idIntrabc)
	}
	if r.copied == 1 {
		sym(idMvJoint + 1)
		kEnd()
		return
	}
	above, left := 0, 0
	if x.s.AvailU {
		above = intraModeCtx[x.t.YModes[0][1]]
	}
	if x.s.AvailL {
		left = intraModeCtx[x.t.YModes[1][0]]
	}
	modesSpec(x, r, idYModeIntra+above*20+left)
	filterSpec(x, r)
	kEnd()
}

func filterSpec(x *kBlk, r *specBlk) {
	if x.sh.EnableFilterIntra && r.ymode == 0 && specW4[x.s.MiSize] <= 8 && specH4[x.s.MiSize] <= 8 {
		r.useFilter = sym(idFilterIntra + x.s.MiSize)
		if r.useFilter == 1 {
			r.filterMode = sym(idFilterMode)
		}
	}
}

// intraRun reads a block of an intra frame with the real code and with the
// reference reader and compares everything read.
func intraRun(x *kBlk) {
	spec := *x
	spec.s.Cdef.CdefIdx = make([][]int, 33)
	for i := range spec.s.Cdef.CdefIdx {
		spec.s.Cdef.CdefIdx[i] = append([]int{}, x.s.Cdef.CdefIdx[i]...)
	}
	x.t.intraFrameModeInfo(&x.b, x.u, &x.s, x.sh)
	var r specBlk
	intraSpec(&spec, &r)
	vk.Assert(x.t.SegmentId == r.seg, "segment")
	vk.Assert(x.t.Skip == r.skip, "skip")
	vk.Assert(x.t.SkipMode == 0, "skip mode")
	vk.Assert(x.t.Lossless == (r.lossless == 1), "lossless")
	vk.Assert(vk.And(vk.And(x.s.Cdef.CdefIdx[0][0] == r.cdef[0], x.s.Cdef.CdefIdx[0][16] == r.cdef[1]),
		vk.And(x.s.Cdef.CdefIdx[16][0] == r.cdef[2], x.s.Cdef.CdefIdx[16][16] == r.cdef[3])), "CDEF indices")
	vk.Assert(x.s.CurrentQIndex == r.qidx, "quantizer index")
	for i := 0; i < 4; i++ {
		vk.Assert(x.s.DeltaLF[i] == r.lf[i], "loop filter delta")
	}
	vk.Assert(!x.s.ReadDeltas, "deltas are read once per superblock")
	vk.Assert(x.s.RefFrame[0] == 0 && x.s.RefFrame[1] == -1, "references of an intra block")
	vk.Assert(x.t.useIntrabc == r.copied, "block copy")
	vk.Assert(x.t.IsInter == r.copied, "intra block")
	if r.copied == 1 {
		vk.Assert(x.t.YMode == 0 && x.t.UVMode == 0, "modes of a block copy")
		vk.Assert(x.t.MotionMode == 0 && x.t.CompoundType == 2 && x.t.InterpFilter == [2]int{3, 3}, "prediction of a block copy")
		vk.Assert(x.t.PaletteSizeY == 0 && x.t.PaletteSizeUV == 0, "no palette in a block copy")
		vk.Reach("end")
		return
	}
	vk.Assert(x.t.UseFilterIntra == (r.useFilter == 1), "recursive filter flag")
	vk.Assert(r.useFilter == 0 || x.t.FilterIntraMode == r.filterMode, "recursive filter mode")
	vk.Assert(x.t.PaletteSizeY == 0 && x.t.PaletteSizeUV == 0, "no palette")
	vk.Assert(x.t.YMode == r.ymode, "luma mode")
	vk.Assert(x.t.AngleDeltaY == r.angleY, "luma angle")
	if x.t.HasChroma {
		vk.Assert(x.t.UVMode == r.uvmode, "chroma mode")
		vk.Assert(x.t.AngleDeltaUV == r.angleUV, "chroma angle")
		vk.Assert(x.t.UVMode != 13 || x.t.CflAlphaU == r.cflU && x.t.CflAlphaV == r.cflV, "scaling of luma for chroma")
	}
	vk.Reach("end")
}
