package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

// The candidate list construction is replaced by an arbitrary result.
//
//verif:hook internal/tilegroup findMvStack
//verif:hook internal/tilegroup findWarpSamples

// interBlock makes a block of an inter frame at 4-sample position (1,1) with
// arbitrary availability and arbitrary neighbours.
func interBlock(x *kBlk, sizeLo, sizeHi int) {
	intraBlock(x, sizeLo, sizeHi)
	x.u.FrameIsIntra = false
	x.t.HasChroma = false
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			x.s.RefFrames[i][j][0] = vk.IntAt("ref0", i*2+j, 0, 7)
			x.s.RefFrames[i][j][1] = vk.IntAt("ref1", i*2+j, -1, 7)
		}
	}
	x.t.AboveSegPredContext = make([]int, 40)
	x.t.LeftSegPredContext = make([]int, 40)
	x.s.PrevSegmentIds = make([][]int, 36)
	for i := range x.s.PrevSegmentIds {
		x.s.PrevSegmentIds[i] = make([]int, 36)
	}
	x.u.InterpolationFilter = vk.Int("interp", 0, 3)
	stackCompound, stackCalls = -1, 0
	VerifHook_findMvStack = func(t *TileGroup, isCompound bool, s *state.State, uh uncompressedheader.UncompressedHeader) {
		stackCalls++
		stackCompound = 0
		if isCompound {
			stackCompound = 1
		}
		t.NumMvFound = vk.Int("found", 0, 2)
		t.NewMvContext = vk.Int("newctx", 0, 5)
		t.ZeroMvContext = vk.Int("zeroctx", 0, 1)
		t.RefMvContext = vk.Int("refctx", 0, 5)
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				t.GlobalMvs[i][j] = 1000 + i*2 + j
				for k := 0; k < 2; k++ {
					t.RefStackMv[i][j][k] = 2000 + i*4 + j*2 + k
				}
			}
		}
	}
	VerifHook_findWarpSamples = func(t *TileGroup, s *state.State) {
		t.NumSamples = vk.Int("samples", 0, 8)
	}
	x.u.FrameWidth, x.u.FrameHeight = 16, 16
	x.s.CurrentQIndex = 100
	for i := 0; i < 2; i++ {
		kZero[idMvJoint+i] = true
	}
}

var stackCompound, stackCalls int

type interSpecR struct {
	specBlk
	isInter, skipMode             int
	ref                           [2]int
	mode, mvIdx                   int
	mv                            [2][2]int
	interIntra, iiMode, wedge     int
	wedgeIdx, wedgeSign, maskType int
	motion, comp                  int
	group, cidx                   int
	filter                        [2]int
	segPred                       int
}

func segFeature(x *kBlk, seg, f int) bool {
	return x.u.SegmentationEnabled && x.s.FeatureEnabled[seg][f] == 1
}

func interSegSpec(x *kBlk, r *interSpecR, pre bool) {
	if !x.u.SegmentationEnabled {
		r.seg = 0
		return
	}
	w, h := specW4[x.s.MiSize], specH4[x.s.MiSize]
	pred := 7
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			if 1+i < x.s.MiRows && 1+j < x.s.MiCols {
				v := x.s.PrevSegmentIds[1+i][1+j]
				pred = vk.Ite(v < pred, v, pred)
			}
		}
	}
	if x.u.SegmentationUpdateMap == 0 {
		r.seg = pred
		return
	}
	if pre && x.u.SegIdPreSkip == 0 {
		r.seg = 0
		return
	}
	if !pre && r.skip == 1 {
		r.segPred = 0
		r.seg = segSpec(x, 1)
		return
	}
	if x.u.SegmentationTemporalUpdate == 1 {
		r.segPred = none(2)
		if r.segPred == 1 {
			r.seg = pred
			return
		}
	}
	r.seg = segSpec(x, r.skip)
}

func count(x *kBlk, f int) int {
	n := 0
	for k := 0; k < 2; k++ {
		n += vk.Ite(vk.And(x.s.AvailU, x.s.RefFrames[0][1][k] == f), 1, 0)
		n += vk.Ite(vk.And(x.s.AvailL, x.s.RefFrames[1][0][k] == f), 1, 0)
	}
	return n
}

func refSym(x *kBlk, k int, a, b []int) int {
	na, nb := 0, 0
	for _, f := range a {
		na += count(x, f)
	}
	for _, f := range b {
		nb += count(x, f)
	}
	ctx := vk.Ite(na < nb, 0, vk.Ite(na == nb, 1, 2))
	return sym(idSingleRef + ctx*20 + k)
}

func refsSpec(x *kBlk, r *interSpecR) {
	if r.skipMode == 1 {
		r.ref = x.u.SkipModeFrame
		return
	}
	if segFeature(x, r.seg, 5) {
		r.ref = [2]int{x.s.FeatureData[r.seg][5], -1}
		return
	}
	comp := 0
	w, h := specW4[x.s.MiSize], specH4[x.s.MiSize]
	if x.u.ReferenceSelect && w >= 2 && h >= 2 {
		comp = none(2)
	}
	if comp == 1 {
		if none(2) == 0 {
			if none(2) == 1 {
				r.ref = [2]int{5, 7}
			} else if none(2) == 0 {
				r.ref = [2]int{1, 2}
			} else {
				r.ref = [2]int{1, 3 + none(2)}
			}
			return
		}
		if none(2) == 0 {
			r.ref[0] = 1 + none(2)
		} else {
			r.ref[0] = 3 + none(2)
		}
		if none(2) == 0 {
			r.ref[1] = 5 + none(2)
		} else {
			r.ref[1] = 7
		}
		return
	}
	r.ref[1] = -1
	if refSym(x, 0, []int{1, 2, 3, 4}, []int{5, 6, 7}) == 1 {
		if refSym(x, 1, []int{5, 6}, []int{7}) == 0 {
			r.ref[0] = 5 + refSym(x, 5, []int{5}, []int{6})
		} else {
			r.ref[0] = 7
		}
	} else if refSym(x, 2, []int{1, 2}, []int{3, 4}) == 1 {
		r.ref[0] = 3 + refSym(x, 4, []int{3}, []int{4})
	} else {
		r.ref[0] = 1 + refSym(x, 3, []int{1}, []int{2})
	}
}

func isInterSpec(x *kBlk, r *interSpecR) int {
	if r.skipMode == 1 {
		return 1
	}
	if segFeature(x, r.seg, 5) {
		return vk.Ite(x.s.FeatureData[r.seg][5] != 0, 1, 0)
	}
	if segFeature(x, r.seg, 7) {
		return 1
	}
	left := vk.And(x.s.AvailL, x.s.RefFrames[1][0][0] <= 0)
	above := vk.And(x.s.AvailU, x.s.RefFrames[0][1][0] <= 0)
	ctx := 0
	if x.s.AvailL && x.s.AvailU {
		ctx = vk.Ite(vk.And(left, above), 3, vk.Ite(vk.Or(left, above), 1, 0))
	} else {
		ctx = vk.Ite(vk.Or(left, above), 2, 0)
	}
	return sym(idIsInter + ctx)
}

var specModes = [][2]int{{1, 1}, {2, 2}, {3, 3}, {4, 4},
	{1, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 4}, {4, 2}, {3, 3}, {4, 4}}

func interBlockSpec(x *kBlk, r *interSpecR) {
	refsSpec(x, r)
	comp := r.ref[1] > 0
	vk.Assert(stackCompound == vk.Ite(comp, 1, 0), "candidates are searched for the right number of references")
	found := vk.Int("found", 0, 2)
	if r.skipMode == 1 {
		r.mode = 4
	} else if segFeature(x, r.seg, 6) || segFeature(x, r.seg, 7) {
		r.mode = 2
	} else if comp {
		r.mode = 4 + none(8)
	} else if sym(idNewMv+vk.Int("newctx", 0, 5)) == 0 {
		r.mode = 3
	} else if sym(idZeroMv+vk.Int("zeroctx", 0, 1)) == 0 {
		r.mode = 2
	} else {
		r.mode = sym(idRefMv + vk.Int("refctx", 0, 5))
	}
	if r.mode == 3 || r.mode == 11 {
		if found > 1 {
			r.mvIdx = none(2)
		}
	} else if r.mode == 1 || r.mode == 5 || r.mode == 8 || r.mode == 9 {
		r.mvIdx = 1
	}
	n := 1
	if comp {
		n = 2
	}
	for i := 0; i < n; i++ {
		m := specModes[r.mode][i]
		if m == 3 {
			r.mv[i] = [2]int{1000 + i*2, 1001 + i*2}
		} else {
			pos := r.mvIdx
			if m == 1 || m == 4 && found <= 1 {
				pos = 0
			}
			r.mv[i] = [2]int{2000 + pos*4 + i*2, 2001 + pos*4 + i*2}
		}
		if m == 4 {
			sym(idMvJoint)
		}
	}
	r.interIntra, r.iiMode, r.wedge = 0, x.t.InterIntraMode, x.t.WedgeInterIntra
	r.wedgeIdx, r.wedgeSign, r.maskType = x.t.WedgeIndex, x.t.WedgeSign, x.t.MaskType
	if r.skipMode == 0 && x.sh.EnableInterIntraCompound && !comp && x.s.MiSize >= 3 && x.s.MiSize <= 9 {
		r.interIntra = none(2)
		if r.interIntra == 1 {
			r.iiMode = none(4)
			r.ref[1] = 0
			r.wedge = none(2)
			if r.wedge == 1 {
				r.wedgeIdx = none(16)
				r.wedgeSign = 0
			}
		}
	}
	global := r.mode == 2 || r.mode == 10
	w, h := specW4[x.s.MiSize], specH4[x.s.MiSize]
	large := w >= 2 && h >= 2
	if r.skipMode == 0 && x.u.IsMotionModeSwitchable && large &&
		!(!x.u.ForceIntegerMv && global && x.s.GmType[r.ref[0]] > 1) &&
		!comp && r.ref[1] != 0 && overlap(x) {
		if x.u.ForceIntegerMv || vk.Int("samples", 0, 8) == 0 || !x.u.AllowWarpedMotion || scaled(x, r.ref[0]) {
			r.motion = sym(idObmc + x.s.MiSize)
		} else {
			r.motion = sym(idMotion + x.s.MiSize)
		}
	}
	r.comp, r.group, r.cidx = 2, 0, 1
	if r.skipMode == 1 {
	} else if comp {
		if x.sh.EnableMaskedCompound {
			r.group = none(2)
		}
		if r.group == 0 {
			if x.sh.EnableJntComp {
				r.cidx = none(2)
				r.comp = 4 - 2*r.cidx
			}
		} else if !(x.s.MiSize >= 3 && x.s.MiSize <= 9 || x.s.MiSize == 18 || x.s.MiSize == 19) {
			r.comp = 1
		} else {
			r.comp = none(2)
		}
		if r.comp == 0 {
			r.wedgeIdx = none(16)
			r.wedgeSign = lit(1)
		} else if r.comp == 1 {
			r.maskType = lit(1)
		}
	} else if r.interIntra == 1 {
		r.comp = 3 - 3*r.wedge
	}
	r.filter = [2]int{x.u.InterpolationFilter, x.u.InterpolationFilter}
	if x.u.InterpolationFilter == 4 {
		needs := true
		if r.skipMode == 1 || r.motion == 2 {
			needs = false
		} else if large && r.mode == 2 {
			needs = x.s.GmType[r.ref[0]] == 1
		} else if large && r.mode == 10 {
			needs = x.s.GmType[r.ref[1]] == 1
		}
		r.filter = [2]int{0, 0}
		if needs {
			r.filter[0] = none(3)
		}
		if !x.sh.EnableDualFilter {
			r.filter[1] = r.filter[0]
		} else if needs {
			r.filter[1] = none(3)
		}
	}
}

func overlap(x *kBlk) bool {
	r := false
	w, h := specW4[x.s.MiSize], specH4[x.s.MiSize]
	for i := 0; i < 32; i += 2 {
		c := vk.Ite(1+i|1 < x.s.MiCols, 1+i|1, x.s.MiCols-1)
		if i < w && 1+i < x.s.MiCols {
			r = vk.Or(r, vk.And(x.s.AvailU, x.s.RefFrames[0][c][0] > 0))
		}
		c = vk.Ite(1+i|1 < x.s.MiRows, 1+i|1, x.s.MiRows-1)
		if i < h && 1+i < x.s.MiRows {
			r = vk.Or(r, vk.And(x.s.AvailL, x.s.RefFrames[c][0][0] > 0))
		}
	}
	return r
}

func scaled(x *kBlk, ref int) bool {
	i := x.u.RefFrameIdx[ref-1]
	return ((x.s.RefUpscaledWidth[i]<<14)+x.u.FrameWidth/2)/x.u.FrameWidth != 1<<14 ||
		((x.s.RefFrameHeight[i]<<14)+x.u.FrameHeight/2)/x.u.FrameHeight != 1<<14
}

func interSpec(x *kBlk, r *interSpecR) {
	interSegSpec(x, r, true)
	w, h := specW4[x.s.MiSize], specH4[x.s.MiSize]
	if segFeature(x, r.seg, 6) || segFeature(x, r.seg, 5) || segFeature(x, r.seg, 7) || x.u.SkipModePresent == 0 || w == 1 || h == 1 {
		r.skipMode = 0
	} else {
		r.skipMode = none(2)
	}
	if r.skipMode == 1 {
		r.skip = 1
	} else {
		r.skip = skipSpec(x, r.seg)
	}
	if x.u.SegIdPreSkip == 0 {
		interSegSpec(x, r, false)
	}
	r.lossless = vk.Ite(x.u.LosslessArray[r.seg], 1, 0)
	cdefSpec(x, &r.specBlk)
	deltaSpec(x, &r.specBlk)
	r.isInter = isInterSpec(x, r)
	if r.isInter == 1 {
		interBlockSpec(x, r)
	} else {
		r.ref = [2]int{0, -1}
		groups := []int{0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 0, 0, 1, 1, 2, 2}
		modesSpec(x, &r.specBlk, idYMode+groups[x.s.MiSize])
		filterSpec(x, &r.specBlk)
	}
}

func interRun(x *kBlk) {
	spec := *x
	x.t.interFrameModeInfo(&x.b, &x.s, x.u, x.sh)
	var r interSpecR
	r.segPred = 9
	interSpec(&spec, &r)
	kEnd()
	vk.Assert(x.t.SegmentId == r.seg, "segment")
	vk.Assert(x.t.SkipMode == r.skipMode, "skip mode")
	vk.Assert(x.t.Skip == r.skip, "skip")
	vk.Assert(x.t.Lossless == (r.lossless == 1), "lossless")
	vk.Assert(x.s.CurrentQIndex == r.qidx, "quantizer index")
	vk.Assert(!x.s.ReadDeltas, "deltas are read once per superblock")
	vk.Assert(x.t.IsInter == r.isInter, "inter flag")
	vk.Assert(x.s.RefFrame[0] == r.ref[0] && x.s.RefFrame[1] == r.ref[1], "references")
	vk.Assert(x.t.useIntrabc == 0, "no block copy in inter frames")
	vk.Assert(x.t.PaletteSizeY == 0 && x.t.PaletteSizeUV == 0, "no palette")
	if r.isInter == 1 {
		vk.Assert(x.t.YMode == shared.NEARESTMV+r.mode, "inter mode")
		vk.Assert(x.t.RefMvIdx == r.mvIdx, "candidate index")
		vk.Assert(x.t.Mv[0] == r.mv[0], "vector")
		vk.Assert(r.ref[1] <= 0 || x.t.Mv[1] == r.mv[1], "second vector")
		vk.Assert(x.t.InterIntra == r.interIntra, "inter-intra")
		vk.Assert(r.interIntra == 0 || x.t.InterIntraMode == r.iiMode && x.t.WedgeInterIntra == r.wedge, "inter-intra mode")
		vk.Assert(x.t.MotionMode == r.motion, "motion mode")
		vk.Assert(x.t.CompoundType == r.comp, "compound type")
		vk.Assert(x.t.CompGroupIdx == r.group && x.t.CompoundIdx == r.cidx, "compound indices")
		vk.Assert(x.t.WedgeIndex == r.wedgeIdx && x.t.WedgeSign == r.wedgeSign && x.t.MaskType == r.maskType, "masks")
		vk.Assert(x.t.InterpFilter == r.filter, "interpolation filter")
	} else {
		vk.Assert(x.t.UseFilterIntra == (r.useFilter == 1), "recursive filter flag")
		vk.Assert(r.useFilter == 0 || x.t.FilterIntraMode == r.filterMode, "recursive filter mode")
		vk.Assert(x.t.YMode == r.ymode, "luma mode")
		vk.Assert(x.t.AngleDeltaY == r.angleY, "luma angle")
		if x.t.HasChroma {
			vk.Assert(x.t.UVMode == r.uvmode && x.t.AngleDeltaUV == r.angleUV, "chroma mode")
			vk.Assert(x.t.UVMode != 13 || x.t.CflAlphaU == r.cflU && x.t.CflAlphaV == r.cflV, "scaling of luma for chroma")
		}
	}
	if r.segPred != 9 {
		w, h := specW4[spec.s.MiSize], specH4[spec.s.MiSize]
		for i := 0; i < 36; i++ {
			want := 7
			if i >= 1 && i < 1+w {
				want = r.segPred
			}
			vk.Assert(x.t.AboveSegPredContext[i] == want, "segment prediction context above")
			want = 7
			if i >= 1 && i < 1+h {
				want = r.segPred
			}
			vk.Assert(x.t.LeftSegPredContext[i] == want, "segment prediction context to the left")
		}
	}
	vk.Reach("end")
}
