package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/util Clip1
//verif:hook internal/tilegroup warpEstimationProcess
//verif:hook internal/tilegroup setupShearProcess
//verif:hook internal/tilegroup blockWarpProcess
//verif:hook internal/tilegroup motionVectorScalingProcess
//verif:hook internal/tilegroup blockInterPredictionProcess
//verif:hook internal/tilegroup wedgeMaskProcess
//verif:hook internal/tilegroup intraModeVariantMaskProcess
//verif:hook internal/tilegroup differenceWeightMaskProcess
//verif:hook internal/tilegroup distanceWeightsProcess
//verif:hook internal/tilegroup maskBlendProcess
//verif:hook internal/tilegroup overlappedMotionCompensationProcess

// mInter predicts one block; kind is 0 for simple, 1 for overlapped, 2 for
// warped motion, 3 for interintra, 4 for compound and 5 for block copy.
func mInter(kind int) {
	t, s := &TileGroup{}, &state.State{}
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	depth := 8 + 4*vk.Split("depth", vk.Int("depth", 0, 1), 0, 1)
	vk.Assume(depth == 8+4*plane)
	sh.ColorConfig.BitDepth = depth
	size := vk.Split("size", vk.Int("size", 0, 2), 0, 2)
	w, h := [3]int{4, 8, 16}[size], [3]int{8, 8, 16}[size]
	x, y := 8, 4
	row, col := 6, 5
	refs := [2]int{vk.Split("ref", vk.Int("ref", 1, 7), 1, 7), -1}
	vk.Assume(refs[0] == 1 || refs[0] == 5)
	lists := 1
	t.CompoundType = 2
	switch kind {
	case 1:
		t.MotionMode = 1
	case 2:
		t.MotionMode = 2
	case 3:
		refs[1] = 0
		t.IsInterIntra, t.InterIntra = true, 1
		t.CompoundType = 3 * vk.Split("variant", vk.Int("variant", 0, 1), 0, 1)
	case 4:
		refs[1] = refs[0] + 2
		lists = 2
		t.CompoundType = vk.Split("compound", vk.Int("compound", 0, 4), 0, 4)
		vk.Assume(t.CompoundType != 3)
	case 5:
		refs[0] = 0
		t.useIntrabc = 1
	}
	s.RefFrames[row][col] = refs
	s.RefFrame = refs
	for i := 0; i < 7; i++ {
		uh.RefFrameIdx[i] = (i*3 + 1) % 8
	}
	global := false
	t.YMode = shared.NEARESTMV
	if kind == 5 {
		t.YMode = DC_PRED
	} else if vk.SplitBool("global", vk.Bool("global")) {
		global = true
		t.YMode = shared.GLOBALMV
		if kind == 4 {
			t.YMode = shared.GLOBAL_GLOBALMV
		}
	}
	uh.ForceIntegerMv = vk.SplitBool("integer", vk.Bool("integer"))
	uh.FrameWidth, uh.FrameHeight = 64, 32
	var typ [8]int
	var scaled, valid [8]bool
	for k := 0; k < lists; k++ {
		r := refs[k]
		typ[r] = vk.Split("type", vk.IntAt("type", k, 0, 3), 0, 3)
		s.GmType[r] = typ[r]
		for i := 0; i < 6; i++ {
			uh.GmParams[r][i] = r*10 + i
		}
		if kind != 5 {
			idx := uh.RefFrameIdx[r-1]
			s.RefUpscaledWidth[idx], s.RefFrameHeight[idx] = 64, 32
			scaled[r] = vk.SplitBool("scaled", vk.BoolAt("scaled", k))
			if scaled[r] {
				s.RefFrameHeight[idx] = 31 + k*2
			}
		}
		valid[r] = vk.SplitBool("valid", vk.BoolAt("valid", k))
		t.Mvs[row][col][k] = [2]int{100 + k, 200 + k}
	}
	if kind == 4 {
		// the cases of the two references one after the other
		vk.Assume(size < 2)
		vk.Assume(typ[refs[0]] == 3 && !scaled[refs[0]] && valid[refs[0]] || typ[refs[1]] == 3)
		vk.Assume(typ[refs[0]] > 1 && typ[refs[1]] > 1 || !scaled[refs[0]] && !scaled[refs[1]] && valid[refs[0]] && valid[refs[1]])
		vk.Assume(global || typ[refs[0]] == 3 && typ[refs[1]] == 3 && !scaled[refs[0]] && !scaled[refs[1]])
	}
	t.LocalValid = vk.SplitBool("local", vk.Bool("local"))
	estimated, sheared := vk.SplitBool("estimated", vk.Bool("estimated")), vk.SplitBool("sheared", vk.Bool("sheared"))
	local := t.LocalValid
	if plane == 0 && kind == 2 {
		local = estimated && sheared
	} else if kind != 2 {
		vk.Assume(!estimated && !sheared && !t.LocalValid)
	} else {
		vk.Assume(!estimated && !sheared)
	}
	if kind == 2 && plane == 0 {
		vk.Assume(!t.LocalValid && (estimated || !sheared))
	}

	var preds [2][PRED_SIZE][PRED_SIZE]int
	for k := 0; k < lists; k++ {
		for i := 0; i < h; i++ {
			for j := 0; j < w; j++ {
				preds[k][i][j] = vk.IntAt("pred", k*256+i*16+j, -1<<17, 1<<17)
			}
		}
	}
	util.VerifHook_Clip1 = func(x, depth int) int {
		m := vk.Ite(x > 1<<depth-1, 1<<depth-1, x)
		return vk.Ite(m < 0, 0, m)
	}
	warps, blocks, scales, done := 0, 0, 0, 0
	mask, blended, overlapped := 0, false, false
	at := -1 // the reference being predicted
	VerifHook_warpEstimationProcess = func(t *TileGroup, s *state.State) {
		vk.Assert(kind == 2 && plane == 0 && done == 0, "the estimation of a local warp")
		t.LocalValid = estimated
		t.LocalWarpParams[2] = 77
	}
	VerifHook_setupShearProcess = func(t *TileGroup, p [6]int) (bool, int, int, int, int) {
		if p[2] == 77 {
			return sheared, 1, 2, 3, 4
		}
		for k := 0; k < lists; k++ {
			if p == uh.GmParams[refs[k]] {
				return valid[refs[k]], 1, 2, 3, 4
			}
		}
		vk.Assert(false, "the parameters of a warp")
		return false, 0, 0, 0, 0
	}
	want := func(k int) int {
		r := refs[k]
		switch {
		case w < 8 || h < 8 || uh.ForceIntegerMv:
			return 0
		case kind == 2 && local:
			return 1
		case global && typ[r] > 1 && !scaled[r] && valid[r]:
			return 2
		}
		return 0
	}
	VerifHook_motionVectorScalingProcess = func(t *TileGroup, p, ref, px, py int, mv [2]int, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) (int, int, int, int) {
		at = mv[0] - 100
		vk.Assert(at >= 0 && at < lists && mv[1] == 200+at, "the motion of a block")
		vk.Assert(p == plane && px == x && py == y, "the position of a block")
		vk.Assert(ref == -1 == (kind == 5) && (kind == 5 || ref == uh.RefFrameIdx[refs[at]-1]), "the reference of a block")
		scales++
		return 11 + at, 22, 33, 44
	}
	VerifHook_blockInterPredictionProcess = func(t *TileGroup, p, ref, sx, sy, dx, dy, pw, ph, r, c int, s *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
		vk.Assert(at >= 0 && want(at) == 0, "a translated block")
		vk.Assert(p == plane && pw == w && ph == h && r == row && c == col, "the block that is predicted")
		vk.Assert(sx == 11+at && sy == 22 && dx == 33 && dy == 44, "the place of the prediction")
		vk.Assert(ref == -1 == (kind == 5) && (kind == 5 || ref == uh.RefFrameIdx[refs[at]-1]), "the reference of the prediction")
		blocks++
		return preds[at]
	}
	VerifHook_blockWarpProcess = func(t *TileGroup, pred *[PRED_SIZE][PRED_SIZE]int, use, p, k, px, py, i8, j8, pw, ph int, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		vk.Assert(k >= 0 && k < lists && use == want(k) && use > 0, "a warped block")
		vk.Assert(p == plane && px == x && py == y && pw == w && ph == h && i8 < h/8 && j8 < w/8, "the part that is warped")
		for i := 0; i < 8; i++ {
			for j := 0; j < 8; j++ {
				pred[i8*8+i][j8*8+j] = preds[k][i8*8+i][j8*8+j]
			}
		}
		warps++
	}
	VerifHook_wedgeMaskProcess = func(t *TileGroup, pw, ph int, s *state.State) {
		vk.Assert(pw == w && ph == h, "the size of a wedge")
		mask += 1
	}
	VerifHook_intraModeVariantMaskProcess = func(t *TileGroup, pw, ph int) {
		vk.Assert(pw == w && ph == h, "the size of a variant mask")
		mask += 10
	}
	VerifHook_differenceWeightMaskProcess = func(t *TileGroup, got [2][PRED_SIZE][PRED_SIZE]int, pw, ph int, sh sequenceheader.SequenceHeader) {
		vk.Assert(pw == w && ph == h, "the size of a difference mask")
		for k := 0; k < 2; k++ {
			vk.Assert(got[k][0][0] == preds[k][0][0] && got[k][h-1][w-1] == preds[k][h-1][w-1], "the predictions of a difference mask")
		}
		mask += 100
	}
	fw, bk := vk.Int("fwd", 3, 13), vk.Int("bck", 3, 13)
	VerifHook_distanceWeightsProcess = func(t *TileGroup, r, c int, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		vk.Assert(r == row && c == col, "the block of the distance weights")
		t.FwdWeight, t.BckWeight = fw, bk
		mask += 1000
	}
	VerifHook_maskBlendProcess = func(t *TileGroup, got [2][PRED_SIZE][PRED_SIZE]int, p, px, py, pw, ph int, sh sequenceheader.SequenceHeader, s *state.State) {
		vk.Assert(p == plane && px == x && py == y && pw == w && ph == h, "the blended block")
		for k := 0; k < lists; k++ {
			for i := 0; i < h; i++ {
				for j := 0; j < w; j++ {
					vk.Assert(got[k][i][j] == preds[k][i][j], "the blended predictions")
				}
			}
		}
		blended = true
	}
	s.CurrFrame = state.NewFrame(26, 26)
	mono := 0
	var old [26][26]int
	for i := range old {
		for j := range old[i] {
			old[i][j] = 1000 + i*30 + j
			s.CurrFrame[plane][i][j] = old[i][j]
		}
	}
	VerifHook_overlappedMotionCompensationProcess = func(t *TileGroup, p, pw, ph int, sh sequenceheader.SequenceHeader, s *state.State, uh uncompressedheader.UncompressedHeader) {
		vk.Assert(p == plane && pw == w && ph == h, "the overlapped block")
		vk.Assert(s.CurrFrame[plane][y+h-1][x+w-1] != old[y+h-1][x+w-1] || depth == 12, "the block is predicted before it is overlapped")
		overlapped = true
	}
	t.predictInter(plane, x, y, w, h, row, col, s, uh, sh)
	wantWarps, wantBlocks := 0, 0
	for k := 0; k < lists; k++ {
		if want(k) > 0 {
			wantWarps += w / 8 * (h / 8)
		} else {
			wantBlocks++
		}
	}
	vk.Assert(warps == wantWarps && blocks == wantBlocks && scales >= blocks, "every reference is predicted once")
	wantMask, blend := 0, false
	switch {
	case kind == 3 || kind == 4 && t.CompoundType < 2:
		blend = true
		switch t.CompoundType {
		case 0:
			wantMask = 1 - plane
		case 1:
			wantMask = 100 * (1 - plane)
		case 3:
			wantMask = 10
		}
	case t.CompoundType == 4:
		wantMask = 1000
	}
	vk.Assert(mask == wantMask && blended == blend, "the kind of blending")
	vk.Assert(overlapped == (kind == 1), "overlapped motion")
	post := 4
	if depth == 12 {
		post = 2
	}
	for i := 0; i < 26; i++ {
		for j := 0; j < 26; j++ {
			v := old[i][j]
			if a, b := i-y, j-x; !blend && a >= 0 && a < h && b >= 0 && b < w {
				switch {
				case kind != 4:
					v = preds[0][a][b]
				case t.CompoundType == 2:
					v = (preds[0][a][b] + preds[1][a][b] + 1<<post) >> (post + 1)
				default:
					v = (fw*preds[0][a][b] + bk*preds[1][a][b] + 1<<(post+3)) >> (post + 4)
				}
				v = util.VerifHook_Clip1(v, depth)
			}
			vk.Assert(s.CurrFrame[plane][i][j] == v, "a predicted sample")
			mono++
		}
	}
	vk.Reach("end")
}

//verif:bounds blocks of 4x8, 8x8 and 16x16 samples of luma at 8 bits and one chroma plane at 12 bits, two references, every kind of global motion, valid or not, scaled or not, arbitrary predictions
func VerifM03_simple() { mInter(0) }

//verif:bounds as simple, overlapped
func VerifM03_overlapped() { mInter(1) }

//verif:bounds as simple, local warps that are valid or not
func VerifM03_warped() { mInter(2) }

//verif:bounds as simple, wedge and smooth interintra
func VerifM03_interintra() { mInter(3) }

//verif:bounds as simple without 16x16 blocks, every kind of compound prediction, some combinations of the global motions of both references
//verif:guess 8
func VerifM03_compound() { mInter(4) }

//verif:bounds as simple, from the current frame
func VerifM03_copy() { mInter(5) }
