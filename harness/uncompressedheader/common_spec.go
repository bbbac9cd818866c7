package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// spec reads uncompressed_header() and records every value it gives.  Groups
// that are not free have one fixed coding.
type spec struct {
	h    header.Header
	sh   sequenceheader.SequenceHeader
	st   state.State // before the frame
	d    []byte
	r    *vkspec.R
	free struct {
		prefix, ids, tags, refs, size, tiles, quant, seg, delta, lf, cdef, lr, skip, gm, grain bool
	}
	kind, show, showable int // frame type (4: show existing) and flags of the fixed prefix
	err                  bool
	bits                 []int // fixed reference indices
	baseQ                int
	gmPart, segPart      int

	u         UncompressedHeader // expected
	refValid  [8]int
	refHint   [8]int
	gmType    [8]int
	featEn    [8][8]int
	feat      [8][8]int
	lrSize    [3]int
	tileCols  int
	tileRows  int
	tileBytes int
}

func newSpec(n int) *spec {
	s := &spec{show: 1, bits: []int{0, 1, 2, 3, 4, 5, 6}}
	s.d = vk.Bytes("d", n)
	s.r = &vkspec.R{D: s.d}
	c := &s.sh
	c.OperatingPointIdc = []int{0}
	c.DecoderModelPresentForThisOp = []bool{false}
	c.FrameWidthBitsMinusOne, c.FrameHeightBitsMinusOne = 7, 7
	c.MaxFrameWidthMinusOne, c.MaxFrameHeightMinusOne = 39, 23
	c.SeqForceIntegerMv = 2
	c.ColorConfig.NumPlanes = 3
	c.ColorConfig.SubsamplingX, c.ColorConfig.SubsamplingY = true, true
	c.ColorConfig.BitDepth = 8
	for i := 0; i < 8; i++ {
		s.st.RefValid[i] = vk.IntAt("valid", i, 0, 1)
		for j := 0; j < 8; j++ {
			// leftovers of earlier frames
			s.st.FeatureEnabled[i][j] = vk.IntAt("olden", i*8+j, 0, 1)
			s.st.FeatureData[i][j] = vk.IntAt("olddata", i*8+j, -255, 255)
			if j < 6 {
				s.st.PrevGmParams[i][j] = vk.IntAt("oldgm", i*8+j, -1<<17, 1<<17)
			}
		}
		s.st.GmType[i] = vk.IntAt("oldtype", i, 0, 3)
	}
	s.u.LoopFilterRefDeltas = [8]int{1, 0, 0, 0, -1, 0, -1, -1}
	s.u.LoopFilterDeltaEnabled = true
	return s
}

func (s *spec) flag(free, def bool) bool {
	v := s.r.Flag()
	if !free {
		vk.Assume(v == def)
		return def
	}
	return vk.SplitBool("f", v)
}

// bit is a flag that does not change the layout.
func (s *spec) bit(free, def bool) bool {
	v := s.r.Flag()
	if !free {
		vk.Assume(v == def)
		return def
	}
	return v
}

func (s *spec) num(n int, free bool, def int) int {
	v := s.r.F(n)
	if !free {
		vk.Assume(v == def)
		return def
	}
	return v
}

func (s *spec) dist(a, b int) int {
	if !s.sh.EnableOrderHint {
		return 0
	}
	m := 1 << uint(s.sh.OrderHintBits)
	d := (a - b) & (m - 1)
	return d - vk.Ite(d >= m/2, m, 0)
}

func (s *spec) read() {
	sh, u := &s.sh, &s.u
	p := s.free.prefix
	idLen := sh.AdditionalFrameIdLengthMinusOne + sh.DeltaFrameIdLengthMinusTwo + 3
	timed := sh.DecoderModelInfoPresent && !sh.TimingInfo.EqualPictureInterval
	s.refValid, s.refHint = s.st.RefValid, s.st.RefOrderHint
	if sh.ReducedStillPictureHeader {
		u.FrameIsIntra, u.ShowFrame = true, true
		s.err = true
	} else {
		if s.flag(p, s.kind == 4) {
			u.ShowExistingFrame = true
			u.FrameToShowMapIdx = s.num(3, true, 0)
			if timed {
				u.FramePresentationTime = s.num(sh.DecoderModelInfo.FramePresentationTimeLengthMinusOne+1, true, 0)
			}
			if sh.FrameIdNumbersPresent {
				u.DisplayFrameId = s.num(idLen, true, 0)
			}
			u.FrameType = s.st.RefFrameType[u.FrameToShowMapIdx]
			u.RefreshFrameFlags = vk.Ite(u.FrameType == 0, 255, 0)
			return
		}
		u.FrameType = vk.Split("type", s.num(2, p, s.kind), 0, 3)
		if p {
			// inter frames are covered by the reference harnesses
			vk.Assume(u.FrameType == 0 || u.FrameType == 2)
		}
		u.FrameIsIntra = u.FrameType == 0 || u.FrameType == 2
		u.ShowFrame = s.flag(p, s.show == 1)
		if u.ShowFrame && timed {
			u.FramePresentationTime = s.num(sh.DecoderModelInfo.FramePresentationTimeLengthMinusOne+1, true, 0)
		}
		if u.ShowFrame {
			u.ShowableFrame = u.FrameType != 0
		} else {
			u.ShowableFrame = s.flag(p, s.showable == 1)
		}
		if u.FrameType == 3 || u.FrameType == 0 && u.ShowFrame {
			s.err = true
		} else {
			s.err = s.flag(p, s.err)
		}
	}
	if u.FrameType == 0 && u.ShowFrame {
		s.refValid, s.refHint = [8]int{}, [8]int{}
	}
	u.DisableCdfUpdate = s.flag(p, false)
	if sh.SeqForceScreenContentTools == 2 {
		u.AllowScreenContentTools = vkspec.B(s.flag(true, false))
	} else {
		u.AllowScreenContentTools = sh.SeqForceScreenContentTools
	}
	if u.AllowScreenContentTools == 1 {
		if sh.SeqForceIntegerMv == 2 {
			u.ForceIntegerMv = s.bit(true, false)
			if !u.FrameIsIntra {
				u.ForceIntegerMv = vk.SplitBool("imv", u.ForceIntegerMv)
			}
		} else {
			u.ForceIntegerMv = sh.SeqForceIntegerMv == 1
		}
	}
	if u.FrameIsIntra {
		u.ForceIntegerMv = true
	}
	if sh.FrameIdNumbersPresent {
		id := s.num(idLen, true, 0)
		u.CurrentFrameId = id
		diff := 1 << uint(sh.DeltaFrameIdLengthMinusTwo+2)
		for i := 0; i < 8; i++ {
			old := s.st.RefFrameId[i]
			// too far behind the current id, modulo the id range
			bad := vk.And(old > id, old < 1<<uint(idLen)+id-diff)
			bad = vk.Or(vk.And(id <= diff, bad), vk.And(id > diff, vk.Or(old > id, old < id-diff)))
			s.refValid[i] = vk.Ite(bad, 0, s.refValid[i])
		}
	}
	if u.FrameType == 3 {
		u.FrameSizeOverrideFlag = true
	} else if !sh.ReducedStillPictureHeader {
		u.FrameSizeOverrideFlag = s.flag(s.free.size, false)
	}
	u.OrderHint = s.num(sh.OrderHintBits, p || s.free.refs || s.free.skip, 0)
	if u.FrameIsIntra || s.err {
		u.PrimaryRefFrame = 7
	} else {
		u.PrimaryRefFrame = s.num(3, false, 7)
	}
	if sh.DecoderModelInfoPresent {
		if s.flag(true, false) {
			for i := 0; i <= sh.OperatingPointsCountMinusOne; i++ {
				if sh.DecoderModelPresentForThisOp[i] {
					idc := sh.OperatingPointIdc[i]
					in := idc == 0 || idc>>uint(s.h.ExtensionHeader.TemporalID)&1 == 1 && idc>>uint(8+s.h.ExtensionHeader.SpatialID)&1 == 1
					if vk.SplitBool("inop", in) {
						s.num(sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne+1, true, 0)
					}
				}
			}
		}
	}
	if u.FrameType == 3 || u.FrameType == 0 && u.ShowFrame {
		u.RefreshFrameFlags = 255
	} else {
		u.RefreshFrameFlags = s.num(8, p || s.free.refs, 3)
	}
	if !u.FrameIsIntra || vk.SplitBool("partial", u.RefreshFrameFlags != 255) {
		if s.err && sh.EnableOrderHint {
			for i := 0; i < 8; i++ {
				v := s.num(sh.OrderHintBits, true, 0)
				s.refValid[i] = vk.Ite(v != s.refHint[i], 0, s.refValid[i])
			}
		}
	}
	if u.FrameIsIntra {
		s.size()
		if u.AllowScreenContentTools == 1 && vk.SplitBool("full", u.UpscaledWidth == u.FrameWidth) {
			u.AllowIntraBc = s.bit(true, false)
		}
	} else {
		if sh.EnableOrderHint {
			s.flag(false, false) // explicit references
		}
		for i := 0; i < 7; i++ {
			u.RefFrameIdx[i] = s.num(3, s.free.refs, s.bits[i])
			if sh.FrameIdNumbersPresent {
				s.num(sh.DeltaFrameIdLengthMinusTwo+2, true, 0)
			}
		}
		s.size()
		if !u.ForceIntegerMv {
			u.AllowHighPrecisionMv = s.bit(s.free.refs || s.free.gm, false)
		}
		if s.flag(s.free.refs, true) {
			u.InterpolationFilter = 4
		} else {
			u.InterpolationFilter = s.num(2, true, 0)
		}
		u.IsMotionModeSwitchable = s.bit(s.free.refs, false)
		if !s.err && sh.EnableRefFrameMvs {
			s.flag(false, false)
		}
		for i := 0; i < 7; i++ {
			hint := s.refHint[u.RefFrameIdx[i]]
			u.OrderHints[1+i] = hint
			u.RefFrameSignBias[1+i] = s.dist(hint, u.OrderHint) > 0
		}
	}
	if sh.ReducedStillPictureHeader || u.DisableCdfUpdate {
		u.DisableFrameEndUpdateCdf = true
	} else {
		u.DisableFrameEndUpdateCdf = s.bit(p, false)
	}
	s.tiles()
	s.quant()
	s.filters()
	if !u.FrameIsIntra {
		u.ReferenceSelect = s.flag(s.free.skip, false)
	}
	s.skip()
	if !u.FrameIsIntra && !s.err && sh.EnableWarpedMotion {
		u.AllowWarpedMotion = s.bit(true, false)
	}
	u.ReducedTxSet = s.bit(true, false)
	s.globals()
	s.grain()
}

func (s *spec) size() {
	sh, u := &s.sh, &s.u
	if u.FrameSizeOverrideFlag {
		u.UpscaledWidth = s.num(sh.FrameWidthBitsMinusOne+1, true, 0) + 1
		u.FrameHeight = s.num(sh.FrameHeightBitsMinusOne+1, true, 0) + 1
		// one tile
		w := vk.Split("fw", vk.Int("fw", 0, 3), 0, 3)
		vk.Assume(vk.And(u.UpscaledWidth == []int{1, 8, 9, 16}[w], u.FrameHeight == []int{9, 1, 8, 16}[w]))
		u.UpscaledWidth = []int{1, 8, 9, 16}[w]
		u.FrameHeight = []int{9, 1, 8, 16}[w]
	} else {
		u.UpscaledWidth = sh.MaxFrameWidthMinusOne + 1
		u.FrameHeight = sh.MaxFrameHeightMinusOne + 1
	}
	u.SuperResDenom = 8
	if sh.EnableSuperRes {
		u.UseSuperRes = s.flag(true, false)
		if u.UseSuperRes {
			u.SuperResDenom = vk.Split("denom", s.num(3, true, 0), 0, 7) + 9
			vk.Assume(u.SuperResDenom == 9 || u.SuperResDenom == 16)
		}
	}
	u.FrameWidth = (u.UpscaledWidth*8 + u.SuperResDenom/2) / u.SuperResDenom
	u.RenderWidth, u.RenderHeight = u.UpscaledWidth, u.FrameHeight
	if s.flag(s.free.size, false) {
		u.RenderWidth = s.num(16, true, 0) + 1
		u.RenderHeight = s.num(16, true, 0) + 1
	}
}

// tiles reads tile_info of a frame of one superblock.
func (s *spec) tiles() {
	s.flag(s.free.tiles, true)
	s.tileCols, s.tileRows = 1, 1
	s.tileBytes = s.st.TileSizeBytes
}

func (s *spec) deltaQ(free bool) int {
	if !s.flag(free, false) {
		return 0
	}
	return s.r.Su(7)
}

func (s *spec) quant() {
	sh, u := &s.sh, &s.u
	f := s.free.quant
	u.BaseQIdx = s.num(8, f || s.free.delta, s.baseQ)
	u.DeltaQYDc = s.deltaQ(f)
	if sh.ColorConfig.NumPlanes > 1 {
		diff := false
		if sh.ColorConfig.SeparateUvDeltaQ {
			diff = s.flag(f, false)
		}
		u.DeltaQUDc = s.deltaQ(f)
		u.DeltaQUAc = s.deltaQ(f)
		u.DeltaQVDc, u.DeltaQVAc = u.DeltaQUDc, u.DeltaQUAc
		if diff {
			u.DeltaQVDc = s.deltaQ(f)
			u.DeltaQVAc = s.deltaQ(f)
		}
	}
	u.UsingQMatrix = s.flag(f, false)
	if u.UsingQMatrix {
		u.Qmy = s.num(4, true, 0)
		u.Qmu = s.num(4, true, 0)
		u.Qmv = u.Qmu
		if sh.ColorConfig.SeparateUvDeltaQ {
			u.Qmv = s.num(4, true, 0)
		}
	}
	s.segmentation()
	if vk.SplitBool("hasq", u.BaseQIdx > 0) {
		u.DeltaQPresent = s.flag(s.free.delta, false)
		if u.DeltaQPresent {
			u.DeltaQRes = s.num(2, true, 0)
			u.AllowIntraBc = vk.SplitBool("bc", u.AllowIntraBc)
			if !u.AllowIntraBc {
				u.DeltaLfPresent = s.flag(true, false)
				if u.DeltaLfPresent {
					u.DeltaLfRes = s.num(2, true, 0)
					u.DeltaLfMulti = s.num(1, true, 0)
				}
			}
		}
	}
	u.CodedLossless = true
	for i := 0; i < 8; i++ {
		q := u.BaseQIdx
		if u.SegmentationEnabled {
			q = vk.Ite(s.featEn[i][0] == 1, vkspec.Clip3(0, 255, q+s.feat[i][0]), q)
		}
		l := vk.And(q == 0, vk.And(u.DeltaQYDc == 0, vk.And(vk.And(u.DeltaQUDc == 0, u.DeltaQUAc == 0), vk.And(u.DeltaQVDc == 0, u.DeltaQVAc == 0))))
		u.LosslessArray[i] = l
		u.CodedLossless = vk.And(u.CodedLossless, l)
		if u.UsingQMatrix {
			u.SegQMLevel[0][i] = vk.Ite(l, 15, u.Qmy)
			u.SegQMLevel[1][i] = vk.Ite(l, 15, u.Qmu)
			u.SegQMLevel[2][i] = vk.Ite(l, 15, u.Qmv)
		}
	}
	u.CodedLossless = vk.SplitBool("lossless", u.CodedLossless)
	u.AllLossless = u.CodedLossless && vk.SplitBool("unscaled", u.FrameWidth == u.UpscaledWidth)
}

func (s *spec) segmentation() {
	u := &s.u
	u.SegmentationEnabled = s.flag(s.free.seg, false)
	if !u.SegmentationEnabled {
		return
	}
	// without a primary reference everything is coded anew
	u.SegmentationUpdateMap, u.SegmentationUpdateData = 1, 1
	bits := []int{8, 6, 6, 6, 6, 3, 0, 0}
	max := []int{255, 63, 63, 63, 63, 7, 0, 0}
	seg := vk.Split("seg", vk.Int("seg", 0, 7), 0, 7)
	vk.Assume(seg%3 == s.segPart && (vk.Thorough() || seg == 0 || seg == 5 || seg == 7))
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			// the features of one segment are arbitrary, the others have fixed layouts
			if j >= 6 {
				// no value follows
				on := s.bit(i == seg, i == (seg+3)%8 && j%3 == 0)
				s.featEn[i][j] = vk.Ite(on, 1, 0)
				u.LastActiveSegId = vk.Ite(on, i, u.LastActiveSegId)
				u.SegIdPreSkip = vk.Ite(on, 1, u.SegIdPreSkip)
				continue
			}
			if !s.flag(i == seg, i == (seg+3)%8 && j%3 == 0) {
				continue
			}
			s.featEn[i][j] = 1
			if j < 5 {
				s.feat[i][j] = vkspec.Clip3(-max[j], max[j], s.r.Su(1+bits[j]))
			} else {
				s.feat[i][j] = vkspec.Clip3(0, max[j], s.r.F(bits[j]))
			}
			u.LastActiveSegId = i
			if j >= 5 {
				u.SegIdPreSkip = 1
			}
		}
	}
}

func (s *spec) filters() {
	sh, u := &s.sh, &s.u
	if !u.CodedLossless || sh.EnableRestoration && !u.AllLossless {
		u.AllowIntraBc = vk.SplitBool("bc", u.AllowIntraBc)
	}
	if !u.CodedLossless && !u.AllowIntraBc {
		f := s.free.lf
		u.LoopFilterLevel[0] = s.num(6, f, 0)
		u.LoopFilterLevel[1] = s.num(6, f, 0)
		if sh.ColorConfig.NumPlanes > 1 && vk.SplitBool("lf", vk.Or(u.LoopFilterLevel[0] != 0, u.LoopFilterLevel[1] != 0)) {
			u.LoopFilterLevel[2] = s.num(6, true, 0)
			u.LoopFilterLevel[3] = s.num(6, true, 0)
		}
		u.LoopFilterSharpness = s.num(3, f, 0)
		u.LoopFilterDeltaEnabled = s.flag(f, false)
		if u.LoopFilterDeltaEnabled {
			up := s.flag(true, false)
			u.LoopFilterDeltaUpdate = vkspec.B(up)
			if up {
				// any subset of one group of deltas
				g := vk.Split("deltas", vk.Int("deltas", 0, 2), 0, 2)
				for i := 0; i < 8; i++ {
					if s.flag(vk.Thorough() || i/3 == g, i%2 == 1) {
						u.LoopFilterRefDeltas[i] = s.r.Su(7)
					}
				}
				for i := 0; i < 2; i++ {
					if s.flag(vk.Thorough() || g == 2, i == 1) {
						u.LoopFilterModeDeltas[i] = s.r.Su(7)
					}
				}
			}
		}
	}
	if u.CodedLossless || u.AllowIntraBc || !sh.EnableCdef {
		u.CdefDampening = 3
		u.CdefYPriStrength, u.CdefYSecStrength = []int{0}, []int{0}
		u.CdefUVPriStrength, u.CdefUVSecStrength = []int{0}, []int{0}
	} else {
		u.CdefDampening = s.num(2, true, 0) + 3
		u.CdefBits = vk.Split("cdef", s.num(2, true, 0), 0, 3)
		n := 1 << uint(u.CdefBits)
		u.CdefYPriStrength, u.CdefYSecStrength = make([]int, n), make([]int, n)
		u.CdefUVPriStrength, u.CdefUVSecStrength = make([]int, n), make([]int, n)
		for i := 0; i < n; i++ {
			u.CdefYPriStrength[i] = s.r.F(4)
			v := s.r.F(2)
			u.CdefYSecStrength[i] = vk.Ite(v == 3, 4, v)
			if sh.ColorConfig.NumPlanes > 1 {
				u.CdefUVPriStrength[i] = s.r.F(4)
				v = s.r.F(2)
				u.CdefUVSecStrength[i] = vk.Ite(v == 3, 4, v)
			}
		}
	}
	s.lrSize = s.st.LoopRestorationSize
	if !u.AllLossless && !u.AllowIntraBc && sh.EnableRestoration {
		chroma := false
		for i := 0; i < sh.ColorConfig.NumPlanes; i++ {
			t := 0
			if v := s.r.F(2); s.free.lr {
				t = vk.Split("lrtype", v, 0, 3)
			} else {
				vk.Assume(v == 0)
			}
			u.FrameRestorationType[i] = []int{0, 3, 1, 2}[t]
			u.UsesLr = u.UsesLr || t != 0
			chroma = chroma || i > 0 && t != 0
		}
		if u.UsesLr {
			shift := vk.Split("lrshift", s.r.F(1), 0, 1)
			if sh.Use128x128SuperBlock {
				shift++
			} else if shift == 1 {
				shift += vk.Split("lrshift", s.r.F(1), 0, 1)
			}
			s.lrSize[0] = 64 << uint(shift)
			uv := 0
			if sh.ColorConfig.SubsamplingX && sh.ColorConfig.SubsamplingY && chroma {
				uv = vk.Split("uvshift", s.r.F(1), 0, 1)
			}
			s.lrSize[1] = s.lrSize[0] >> uint(uv)
			s.lrSize[2] = s.lrSize[0] >> uint(uv)
		}
	}
	if !u.CodedLossless {
		u.TxMode = vk.Ite(s.bit(true, false), 2, 1)
	}
}

func (s *spec) skip() {
	sh, u := &s.sh, &s.u
	if u.FrameIsIntra || !u.ReferenceSelect || !sh.EnableOrderHint {
		return
	}
	fwd, bwd, fh, bh := -1, -1, 0, 0
	for i := 0; i < 7; i++ {
		h := s.refHint[u.RefFrameIdx[i]]
		d := s.dist(h, u.OrderHint)
		nearer := vk.And(d < 0, vk.Or(fwd < 0, s.dist(h, fh) > 0))
		fwd, fh = vk.Ite(nearer, i, fwd), vk.Ite(nearer, h, fh)
		nearer = vk.And(d > 0, vk.Or(bwd < 0, s.dist(h, bh) < 0))
		bwd, bh = vk.Ite(nearer, i, bwd), vk.Ite(nearer, h, bh)
	}
	second, h2 := -1, 0
	for i := 0; i < 7; i++ {
		h := s.refHint[u.RefFrameIdx[i]]
		nearer := vk.And(s.dist(h, fh) < 0, vk.Or(second < 0, s.dist(h, h2) > 0))
		second, h2 = vk.Ite(nearer, i, second), vk.Ite(nearer, h, h2)
	}
	other := vk.Ite(bwd >= 0, bwd, second)
	if vk.SplitBool("allowed", vk.And(fwd >= 0, other >= 0)) {
		u.SkipModeFrame[0] = 1 + vk.Ite(fwd < other, fwd, other)
		u.SkipModeFrame[1] = 1 + vk.Ite(fwd < other, other, fwd)
		u.SkipModePresent = s.num(1, true, 0)
	}
}

// subexp reads a subexponential code over n values; only the shortest codes
// when deep is false.
func (s *spec) subexp(n int, deep bool) int {
	mk, k := 0, 3
	for i := 0; ; i++ {
		b := k
		if i > 0 {
			b = k + i - 1
		}
		if n <= mk+3<<uint(b) {
			// final bits: ns(n - mk)
			m := n - mk
			w := vkspec.Log2Floor(m) + 1
			v := s.r.F(w - 1)
			if vk.SplitBool("long", v >= 1<<uint(w)-m) {
				v = v<<1 - (1<<uint(w) - m) + s.r.F(1)
			}
			return v + mk
		}
		if !s.flag(deep, false) {
			return s.r.F(b) + mk
		}
		mk += 1 << uint(b)
	}
}

func recenter(r, v int) int {
	return vk.Ite(v > 2*r, v, vk.Ite(v&1 == 1, r-(v+1)>>1, r+v>>1))
}

// gmParam is the value of a global motion parameter coded against prev.
func (s *spec) gmParam(typ, idx, prev int, hp, deep bool) int {
	abs, prec := 12, 15
	if idx < 2 {
		abs, prec = 12, 6
		if typ == 1 {
			abs, prec = 8+vkspec.B(hp), 2+vkspec.B(hp)
		}
	}
	diff := uint(16 - prec)
	one := 0
	if idx%3 == 2 {
		one = 1 << 16
	}
	mx := 1 << uint(abs)
	r := prev>>diff - one>>diff + mx
	n := 2*mx + 1
	v := s.subexp(n, deep)
	x := vk.Ite(2*r <= n, recenter(r, v), n-1-recenter(n-1-r, v)) - mx
	return x<<diff + one
}

func (s *spec) globals() {
	u := &s.u
	for ref := 1; ref <= 7; ref++ {
		u.GmParams[ref][2], u.GmParams[ref][5] = 1<<16, 1<<16
	}
	s.gmType[0] = s.st.GmType[0]
	if u.FrameIsIntra {
		return
	}
	only, deep := 0, -1
	if s.free.gm {
		only = vk.Split("gmref", vk.Int("gmref", 1, 7), 1, 7)
		vk.Assume((only-1)%3 == s.gmPart)
		deep = vk.Split("gmidx", vk.Int("gmidx", -1, 5), -1, 5)
	}
	for ref := 1; ref <= 7; ref++ {
		typ := 0
		if s.flag(ref == only, only > 0 && ref == only%7+1) {
			if s.flag(ref == only, false) {
				typ = 2
			} else if s.flag(ref == only, true) {
				typ = 1
			} else {
				typ = 3
			}
		}
		s.gmType[ref] = typ
		g := &u.GmParams[ref]
		get := func(i int) int {
			one := 0
			if i%3 == 2 {
				one = 1 << 16
			}
			return s.gmParam(typ, i, one, u.AllowHighPrecisionMv, ref == only && i == deep)
		}
		if typ >= 2 {
			g[2] = get(2)
			g[3] = get(3)
			if typ == 3 {
				g[4] = get(4)
				g[5] = get(5)
			} else {
				g[4], g[5] = -g[3], g[2]
			}
		}
		if typ >= 1 {
			g[0] = get(0)
			g[1] = get(1)
		}
	}
}

func (s *spec) points(max int) (v, c []int) {
	n := vk.Split("points", s.r.F(4), 0, 15)
	vk.Assume(n <= max)
	for i := 0; i < n; i++ {
		v = append(v, s.r.F(8))
		c = append(c, s.r.F(8))
	}
	return
}

func (s *spec) coeffs(n int) (c []int) {
	for i := 0; i < n; i++ {
		c = append(c, s.r.F(8))
	}
	return
}

func (s *spec) grain() {
	sh, u := &s.sh, &s.u
	if !sh.FilmGrainParamsPresent || !u.ShowFrame && !u.ShowableFrame {
		return
	}
	if !s.flag(s.free.grain, false) {
		return
	}
	u.ApplyGrain = true
	u.GrainSeed = s.r.F(16)
	if u.FrameType == 1 {
		s.flag(false, true) // a full set
	}
	y, cb, cr := 14, 10, 10
	if !vk.Thorough() {
		y, cb, cr = 3, 2, 2
	}
	u.PointYValue, u.PointYScaling = s.points(y)
	mono := sh.ColorConfig.MonoChrome
	if !mono {
		u.ChromaScalingFromLuna = s.flag(true, false)
	}
	from := u.ChromaScalingFromLuna
	ny := len(u.PointYValue)
	if !mono && !from && !(sh.ColorConfig.SubsamplingX && sh.ColorConfig.SubsamplingY && ny == 0) {
		u.PointCbValue, u.PointCbScaling = s.points(cb)
		u.PointCrValue, u.PointCrScaling = s.points(cr)
	}
	u.GrainScalingMinus8 = s.r.F(2)
	u.ArCoeffLag = vk.Split("lag", s.r.F(2), 0, 3)
	luma := 2 * u.ArCoeffLag * (u.ArCoeffLag + 1)
	chroma := luma
	if ny > 0 {
		chroma++
		u.ArCoeffsYPlus128 = s.coeffs(luma)
	}
	ncb, ncr := len(u.PointCbValue), len(u.PointCrValue)
	if from || ncb > 0 {
		u.ArCoeffsCbPlus128 = s.coeffs(chroma)
	}
	if from || ncr > 0 {
		u.ArCoeffsCrPlus128 = s.coeffs(chroma)
	}
	u.ArCoeffShiftMinus6 = s.r.F(2)
	u.GrainScaleShift = s.r.F(2)
	if ncb > 0 {
		u.CbMult, u.CbLumaMult, u.CbOffset = s.r.F(8), s.r.F(8), s.r.F(9)
	}
	if ncr > 0 {
		u.CrMult, u.CrLumaMult, u.CrOffset = s.r.F(8), s.r.F(8), s.r.F(9)
	}
	u.OverlapFlag = s.r.Flag()
	u.ClipToRestrictedRange = s.r.Flag()
}

func same(a, b any, what string) { vk.Assert(vk.Eq(a, b), what) }

// check decodes the header and compares everything it gives.
func (s *spec) check() {
	st := s.st
	b := bitstream.NewBitStream(s.d)
	g := NewUncompressedHeader(s.h, s.sh, &b, &st)
	e := s.u
	vk.Assert(b.Position == s.r.P, "exactly the bits of the header are consumed")
	vk.Assert(vk.And(g.ShowExistingFrame == e.ShowExistingFrame, vk.And(g.ShowFrame == e.ShowFrame, g.ShowableFrame == e.ShowableFrame)), "show flags")
	same(g.FrameType, e.FrameType, "frame type")
	same(g.FrameToShowMapIdx, e.FrameToShowMapIdx, "frame to show")
	same(g.RefreshFrameFlags, e.RefreshFrameFlags, "refreshed references")
	same(g.DisplayFrameId, e.DisplayFrameId, "displayed frame id")
	same(g.FramePresentationTime, e.FramePresentationTime, "presentation time")
	if e.ShowExistingFrame {
		vk.Reach("existing")
		return
	}
	same(g.FrameIsIntra, e.FrameIsIntra, "intra flag")
	same(g.CurrentFrameId, e.CurrentFrameId, "frame id")
	vk.Assert(vk.And(g.DisableCdfUpdate == e.DisableCdfUpdate, g.DisableFrameEndUpdateCdf == e.DisableFrameEndUpdateCdf), "adaptation flags")
	vk.Assert(vk.And(g.AllowScreenContentTools == e.AllowScreenContentTools, vk.And(g.ForceIntegerMv == e.ForceIntegerMv, g.AllowIntraBc == e.AllowIntraBc)), "screen content tools")
	same(g.OrderHint, e.OrderHint, "order hint")
	same(g.PrimaryRefFrame, e.PrimaryRefFrame, "primary reference")
	same(st.RefValid, s.refValid, "references that stay valid")
	same(st.RefOrderHint, s.refHint, "order hints of the references")
	same(g.RefFrameIdx, e.RefFrameIdx, "reference indices")
	for i := 1; i < 8; i++ {
		vk.Assert(vk.And(g.OrderHints[i] == e.OrderHints[i], g.RefFrameSignBias[i] == e.RefFrameSignBias[i]), "order hints and directions of the references")
	}
	vk.Assert(vk.And(g.AllowHighPrecisionMv == e.AllowHighPrecisionMv, vk.And(g.IsMotionModeSwitchable == e.IsMotionModeSwitchable, g.UseRefFrameMvs == e.UseRefFrameMvs)), "motion vector flags")
	same(g.InterpolationFilter, e.InterpolationFilter, "interpolation filter")
	same([]int{g.FrameWidth, g.FrameHeight, g.UpscaledWidth, g.SuperResDenom}, []int{e.FrameWidth, e.FrameHeight, e.UpscaledWidth, e.SuperResDenom}, "frame size")
	same(g.UseSuperRes, e.UseSuperRes, "super-resolution flag")
	same([]int{g.RenderWidth, g.RenderHeight}, []int{e.RenderWidth, e.RenderHeight}, "render size")
	same([]int{st.MiCols, st.MiRows}, []int{(e.FrameWidth + 7) / 8 * 2, (e.FrameHeight + 7) / 8 * 2}, "size in 4x4 units")
	same([]int{st.TileCols, st.TileRows, st.TileSizeBytes}, []int{s.tileCols, s.tileRows, s.tileBytes}, "tiles")
	same([]int{g.BaseQIdx, g.DeltaQYDc, g.DeltaQUDc, g.DeltaQUAc, g.DeltaQVDc, g.DeltaQVAc}, []int{e.BaseQIdx, e.DeltaQYDc, e.DeltaQUDc, e.DeltaQUAc, e.DeltaQVDc, e.DeltaQVAc}, "quantizer indices")
	same(g.UsingQMatrix, e.UsingQMatrix, "quantizer matrix flag")
	same([]int{g.Qmy, g.Qmu, g.Qmv}, []int{e.Qmy, e.Qmu, e.Qmv}, "quantizer matrix levels")
	same(g.SegmentationEnabled, e.SegmentationEnabled, "segmentation flag")
	same([]int{g.SegmentationUpdateMap, g.SegmentationUpdateData, g.SegmentationTemporalUpdate, g.SegIdPreSkip, g.LastActiveSegId}, []int{e.SegmentationUpdateMap, e.SegmentationUpdateData, e.SegmentationTemporalUpdate, e.SegIdPreSkip, e.LastActiveSegId}, "segmentation parameters")
	same(st.FeatureEnabled, s.featEn, "segment features that are on")
	same(st.FeatureData, s.feat, "segment feature values")
	vk.Assert(vk.And(g.DeltaQPresent == e.DeltaQPresent, g.DeltaLfPresent == e.DeltaLfPresent), "block delta flags")
	same([]int{g.DeltaQRes, g.DeltaLfRes, g.DeltaLfMulti}, []int{e.DeltaQRes, e.DeltaLfRes, e.DeltaLfMulti}, "block delta resolutions")
	same(g.LosslessArray, e.LosslessArray, "lossless segments")
	vk.Assert(vk.And(g.CodedLossless == e.CodedLossless, g.AllLossless == e.AllLossless), "lossless flags")
	same(g.SegQMLevel, e.SegQMLevel, "quantizer matrix levels of the segments")
	same(g.LoopFilterLevel, e.LoopFilterLevel, "loop filter levels")
	if !e.CodedLossless && !e.AllowIntraBc {
		same([]int{g.LoopFilterSharpness, g.LoopFilterDeltaUpdate}, []int{e.LoopFilterSharpness, e.LoopFilterDeltaUpdate}, "loop filter sharpness")
		same(g.LoopFilterDeltaEnabled, e.LoopFilterDeltaEnabled, "loop filter delta flag")
	}
	same(g.LoopFilterRefDeltas, e.LoopFilterRefDeltas, "loop filter reference deltas")
	same(g.LoopFilterModeDeltas, e.LoopFilterModeDeltas, "loop filter mode deltas")
	same([]int{g.CdefBits, g.CdefDampening}, []int{e.CdefBits, e.CdefDampening}, "constrained directional enhancement parameters")
	same([][]int{g.CdefYPriStrength, g.CdefYSecStrength}, [][]int{e.CdefYPriStrength, e.CdefYSecStrength}, "luma enhancement strengths")
	same([][]int{g.CdefUVPriStrength, g.CdefUVSecStrength}, [][]int{e.CdefUVPriStrength, e.CdefUVSecStrength}, "chroma enhancement strengths")
	same(g.FrameRestorationType, e.FrameRestorationType, "restoration types")
	same(g.UsesLr, e.UsesLr, "restoration flag")
	if e.UsesLr {
		same(st.LoopRestorationSize, s.lrSize, "restoration unit sizes")
	}
	same(g.TxMode, e.TxMode, "transform mode")
	same(g.ReferenceSelect, e.ReferenceSelect, "reference mode")
	same(g.SkipModePresent, e.SkipModePresent, "skip mode flag")
	same(g.SkipModeFrame, e.SkipModeFrame, "skip mode references")
	vk.Assert(vk.And(g.AllowWarpedMotion == e.AllowWarpedMotion, g.ReducedTxSet == e.ReducedTxSet), "warped motion and transform set flags")
	same(st.GmType, s.gmType, "global motion types")
	for i := 1; i < 8; i++ {
		same(g.GmParams[i], e.GmParams[i], "global motion parameters")
	}
	vk.Assert(vk.And(g.ApplyGrain == e.ApplyGrain, vk.And(g.ChromaScalingFromLuna == e.ChromaScalingFromLuna, vk.And(g.OverlapFlag == e.OverlapFlag, g.ClipToRestrictedRange == e.ClipToRestrictedRange))), "film grain flags")
	same([][]int{g.PointYValue, g.PointYScaling, g.PointCbValue, g.PointCbScaling, g.PointCrValue, g.PointCrScaling}, [][]int{e.PointYValue, e.PointYScaling, e.PointCbValue, e.PointCbScaling, e.PointCrValue, e.PointCrScaling}, "film grain scaling points")
	same([][]int{g.ArCoeffsYPlus128, g.ArCoeffsCbPlus128, g.ArCoeffsCrPlus128}, [][]int{e.ArCoeffsYPlus128, e.ArCoeffsCbPlus128, e.ArCoeffsCrPlus128}, "film grain filter coefficients")
	same([]int{g.GrainSeed, g.GrainScalingMinus8, g.ArCoeffLag, g.ArCoeffShiftMinus6, g.GrainScaleShift, g.CbMult, g.CbLumaMult, g.CbOffset, g.CrMult, g.CrLumaMult, g.CrOffset},
		[]int{e.GrainSeed, e.GrainScalingMinus8, e.ArCoeffLag, e.ArCoeffShiftMinus6, e.GrainScaleShift, e.CbMult, e.CbLumaMult, e.CbOffset, e.CrMult, e.CrLumaMult, e.CrOffset}, "film grain numbers")
	// the frame starts from the default state
	for i := 1; i < 8; i++ {
		same(st.PrevGmParams[i], [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}, "previous global motion is the identity")
	}
	vk.Assert(len(st.PrevSegmentIds) >= st.MiRows, "previous segment ids cover the frame")
	vk.Reach("end")
}

// screen picks the sequence-wide screen content settings.
func (s *spec) screen() {
	s.sh.SeqForceScreenContentTools = vk.Split("sct", vk.Int("sct", 0, 2), 0, 2)
	s.sh.SeqForceIntegerMv = vk.Split("imv", vk.Int("imv", 0, 2), 0, 2)
}

func (s *spec) hints(bits int) {
	s.sh.EnableOrderHint = bits > 0
	s.sh.OrderHintBits = bits
	for i := 0; i < 8; i++ {
		s.st.RefOrderHint[i] = vk.IntAt("hint", bits*8+i, 0, 1<<uint(bits)-1)
	}
}
