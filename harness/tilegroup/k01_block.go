package tilegroup

import "github.com/m4tthewde/gov1/internal/vk"

//verif:bounds segmentation on or off, before or after skip; every neighbouring segment, skip flag and availability; every coded value; last active segment 0..7; 8 segments of arbitrary losslessness and skip feature; block 4x4
func VerifK01_segment() {
	var x kBlk
	intraBlock(&x, 0, 0)
	x.t.HasChroma = false
	x.u.SegmentationEnabled = vk.Bool("seg")
	x.u.SegIdPreSkip = vk.Int("preskip", 0, 1)
	x.u.LastActiveSegId = vk.Int("last", 0, 7)
	for i := 0; i < 8; i++ {
		x.s.FeatureEnabled[i][6] = vk.IntAt("feature", i, 0, 1)
		x.u.LosslessArray[i] = vk.BoolAt("lossless", i)
	}
	intraRun(&x)
}

//verif:bounds every block size; every CDEF index stored before; 0..3 index bits; every coded value
func VerifK01_cdef() {
	var x kBlk
	intraBlock(&x, 0, 21)
	x.t.HasChroma = false
	x.u.CodedLossless = vk.Bool("codedLossless")
	x.sh.EnableCdef = vk.Bool("enable")
	x.u.CdefBits = vk.Int("bits", 0, 3)
	intraRun(&x)
}

//verif:bounds every block size; both superblock sizes; every previous quantizer index and delta scale; every coded value
func VerifK01_deltaq() {
	var x kBlk
	intraBlock(&x, 0, 21)
	x.t.HasChroma = false
	x.sh.Use128x128SuperBlock = vk.Bool("sb128")
	x.s.ReadDeltas = vk.Bool("read")
	x.s.CurrentQIndex = vk.Int("q", 1, 255)
	x.u.DeltaQRes = vk.Int("res", 0, 3)
	intraRun(&x)
}

func deltaLf(multi bool, first, last int) {
	var x kBlk
	intraBlock(&x, 0, 21)
	x.s.AvailU, x.s.AvailL = false, false
	x.t.HasChroma = false
	x.sh.Use128x128SuperBlock = vk.Bool("sb128")
	x.s.ReadDeltas = true
	x.s.CurrentQIndex = 100
	kZero[idDeltaQ] = true
	kZero[idYModeIntra] = true
	for i := 0; i < 4; i++ {
		if i < first || i > last {
			kZero[idDeltaLFMulti+i] = true
		}
	}
	x.u.DeltaLfPresent = vk.Bool("present")
	if multi {
		x.u.DeltaLfMulti = 1
	}
	x.u.DeltaLfRes = vk.Int("res", 0, 3)
	for i := 0; i < 4; i++ {
		x.s.DeltaLF[i] = vk.IntAt("lf", i, -63, 63)
	}
	intraRun(&x)
}

//verif:bounds one delta: every block size; both superblock sizes; every previous delta and scale; every coded value
func VerifK01_deltalf_one() { deltaLf(false, 0, 3) }

//verif:bounds first and second of several deltas: every block size; both superblock sizes; every previous delta and scale; every coded value
func VerifK01_deltalf_multi01() { deltaLf(true, 0, 1) }

//verif:bounds third and fourth of several deltas: every block size; both superblock sizes; every previous delta and scale; every coded value
func VerifK01_deltalf_multi23() { deltaLf(true, 2, 3) }
