package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:bounds every block size; with and without chroma; every subsampling; lossless or not; every neighbouring mode and availability; every coded value
func VerifK02_modes() {
	var x kBlk
	intraBlock(&x, 0, 21)
	x.u.LosslessArray[0] = vk.Bool("lossless0")
	ss := vk.Split("ss", vk.Int("ss", 0, 2), 0, 2)
	x.sh.ColorConfig.SubsamplingX = ss > 0
	x.sh.ColorConfig.SubsamplingY = ss == 2
	intraRun(&x)
}

//verif:bounds blocks that may be copies: every flag, block size, neighbouring mode and availability; vectors are K06
func VerifK02_copy() {
	var x kBlk
	intraBlock(&x, 0, 21)
	x.u.AllowIntraBc = vk.Bool("allow")
	x.u.ForceIntegerMv = true
	kZero[idMvJoint+1] = true
	found := false
	VerifHook_findMvStack = func(t *TileGroup, isCompound bool, s *state.State, uh uncompressedheader.UncompressedHeader) {
		vk.Assert(!isCompound, "a copy has one reference")
		found = true
	}
	x.t.PaletteSizeY, x.t.PaletteSizeUV = 3, 4
	x.t.MotionMode, x.t.CompoundType = 1, 1
	x.t.YMode, x.t.UVMode = 5, 5
	intraRun(&x)
	vk.Assert(found == (x.t.useIntrabc == 1), "candidates are searched for a copy")
}

//verif:bounds recursive filters allowed: every flag, mode, block size, neighbouring mode and availability
func VerifK02_filter() {
	var x kBlk
	intraBlock(&x, 0, 21)
	x.t.HasChroma = false
	x.sh.EnableFilterIntra = vk.Bool("enable")
	x.t.UseFilterIntra = vk.Bool("stale")
	intraRun(&x)
}
