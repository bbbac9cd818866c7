package tilegroup

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds inter flag and single references: every pair of neighbouring references and availability; no segment features; blocks of 4x4; every coded value
func VerifK04_single() {
	var x kBlk
	interBlock(&x, 0, 0)
	interRun(&x)
}

//verif:bounds segment features for reference, skip and global motion of every data; every block size; every neighbouring availability; single references
func VerifK04_features() {
	var x kBlk
	interBlock(&x, 0, 21)
	x.u.SegmentationEnabled = true
	for i := 5; i < 8; i++ {
		x.s.FeatureEnabled[0][i] = vk.IntAt("feature", i, 0, 1)
	}
	x.s.FeatureData[0][5] = vk.Int("ref", 0, 7)
	x.u.SkipModePresent = vk.Int("skipmode", 0, 1)
	x.u.SkipModeFrame = [2]int{vk.Int("skip0", 1, 4), vk.Int("skip1", 5, 7)}
	x.u.SegIdPreSkip = 1
	for i := range kRef1 {
		kZero[idSingleRef+kRef1[i]] = true
	}
	interRun(&x)
}

var kRef1 = []int{0, 20, 40}

//verif:bounds compound references and modes; every block size; every neighbour availability; candidate lists of up to 2
func VerifK04_compound() {
	var x kBlk
	interBlock(&x, 0, 21)
	x.s.AvailU, x.s.AvailL = false, false
	x.u.ReferenceSelect = vk.Bool("select")
	x.sh.EnableInterIntraCompound = vk.Bool("interintra")
	for i := 0; i < 6; i++ {
		kZero[idSingleRef+20+i] = true
	}
	interRun(&x)
}

//verif:bounds intra blocks of inter frames: every block size; with and without chroma; every subsampling; every coded value
func VerifK04_intra() {
	var x kBlk
	interBlock(&x, 0, 21)
	x.s.AvailU, x.s.AvailL = false, false
	kZero[idIsInter] = true
	x.t.HasChroma = vk.Bool("chroma")
	x.u.LosslessArray[0] = vk.Bool("lossless0")
	ss := vk.Split("ss", vk.Int("ss", 0, 2), 0, 2)
	x.sh.ColorConfig.SubsamplingX = ss > 0
	x.sh.ColorConfig.SubsamplingY = ss == 2
	interRun(&x)
}

//verif:bounds segments of inter frames: map updated or not, predicted in time or not, before or after skip; every neighbouring segment and availability; every stored segment of the 16x16 region; blocks up to 16x16; every coded value
func VerifK04_segment() {
	var x kBlk
	interBlock(&x, 0, 6)
	x.s.MiRows = vk.Int("rows", 2, 6)
	x.s.MiCols = vk.Int("cols", 2, 6)
	x.u.SegmentationEnabled = true
	x.u.SegmentationUpdateMap = vk.Int("update", 0, 1)
	x.u.SegmentationTemporalUpdate = vk.Int("temporal", 0, 1)
	x.u.SegIdPreSkip = vk.Int("preskip", 0, 1)
	x.u.LastActiveSegId = vk.Int("last", 0, 7)
	for i := 1; i < 5; i++ {
		for j := 1; j < 5; j++ {
			x.s.PrevSegmentIds[i][j] = vk.IntAt("prev", i*8+j, 0, 7)
		}
	}
	for i := range x.t.AboveSegPredContext {
		x.t.AboveSegPredContext[i], x.t.LeftSegPredContext[i] = 7, 7
	}
	for i := 0; i < 4; i++ {
		kZero[idIsInter+i] = true
		kZero[idYMode+i] = true
	}
	interRun(&x)
}

func tail(x *kBlk) {
	interBlock(x, 0, 21)
	x.s.AvailU, x.s.AvailL = false, false
	x.u.InterpolationFilter = 4
	x.sh.EnableDualFilter = vk.Bool("dual")
	for i := 0; i < 8; i++ {
		x.s.GmType[i] = vk.IntAt("gm", i, 0, 3)
	}
	x.u.SkipModePresent = vk.Int("skipmode", 0, 1)
	x.u.SkipModeFrame = [2]int{1, 7}
}

//verif:bounds compound types: every block size; skip mode; compound tools on or off; every coded value
func VerifK04_types() {
	var x kBlk
	tail(&x)
	x.u.InterpolationFilter = 0
	x.u.ReferenceSelect = true
	x.s.GmType = [8]int{}
	x.sh.EnableMaskedCompound = vk.Bool("masked")
	x.sh.EnableJntComp = vk.Bool("jnt")
	for i := 0; i < 6; i++ {
		kZero[idSingleRef+20+i] = true
	}
	interRun(&x)
}

//verif:bounds switchable filters: every block size; every global motion type of the references; skip mode; every coded value
func VerifK04_filters() {
	var x kBlk
	tail(&x)
	x.u.ReferenceSelect = true
	for i := 0; i < 6; i++ {
		kZero[idSingleRef+20+i] = true
	}
	interRun(&x)
}

//verif:bounds motion modes: every block size; every global motion type; neighbours along the first 32 samples of each edge of frames from 8x8 samples; every scaling of references; every coded value
func VerifK04_motion() {
	var x kBlk
	tail(&x)
	x.s.AvailU, x.s.AvailL = vk.Bool("availU"), vk.Bool("availL")
	x.u.InterpolationFilter = 0
	x.u.IsMotionModeSwitchable = vk.Bool("switchable")
	x.u.ForceIntegerMv = vk.Bool("integer")
	x.u.AllowWarpedMotion = vk.Bool("warped")
	x.sh.EnableInterIntraCompound = vk.Bool("interintra")
	x.s.MiRows, x.s.MiCols = vk.Int("rows", 2, 33), vk.Int("cols", 2, 33)
	for i := 0; i < 8; i++ {
		x.s.RefFrames[0][i+1][0] = vk.IntAt("above", i, 0, 1)
		x.s.RefFrames[i+1][0][0] = vk.IntAt("left", i, 0, 1)
	}
	for i := 0; i < 7; i++ {
		x.u.RefFrameIdx[i] = i
	}
	x.u.FrameWidth, x.u.FrameHeight = 16, 32
	for i := range x.s.RefUpscaledWidth {
		x.s.RefUpscaledWidth[i], x.s.RefFrameHeight[i] = 16, 32
	}
	x.s.RefUpscaledWidth[0] = vk.Int("refw", 8, 32)
	x.s.RefFrameHeight[0] = vk.Int("refh", 16, 64)
	for i := 0; i < 3; i++ {
		for j := 0; j < 6; j++ {
			kZero[idSingleRef+20*i+j] = true
		}
	}
	interRun(&x)
}
