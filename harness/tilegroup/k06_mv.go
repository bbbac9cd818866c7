package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/vk"
)

func mvCompSpec(x *kBlk, ctx, comp int) int {
	sign := sym(idMvSign + 20*ctx + comp)
	class := sym(idMvClass + 20*ctx + comp)
	fr, hp := 3, 1
	d, mag := 0, 0
	if class == 0 {
		d = sym(idMvClass0Bit + 20*ctx + comp)
		if !x.u.ForceIntegerMv {
			fr = sym(idMvClass0Fr + 20*ctx + 2*comp + d)
		}
		if x.u.AllowHighPrecisionMv {
			hp = sym(idMvClass0Hp + 20*ctx + comp)
		}
	} else {
		for i := 0; i < class; i++ {
			d += sym(idMvBit+40*ctx+20*comp+i) << i
		}
		mag = 2 << (class + 2)
		if !x.u.ForceIntegerMv {
			fr = sym(idMvFr + 20*ctx + comp)
		}
		if x.u.AllowHighPrecisionMv {
			hp = sym(idMvHp + 20*ctx + comp)
		}
	}
	mag += d*8 + fr*2 + hp + 1
	if sign == 1 {
		return -mag
	}
	return mag
}

func mvSpec(x *kBlk, ctx int, pred [2]int) [2]int {
	j := sym(idMvJoint + ctx)
	if j >= 2 {
		pred[0] += mvCompSpec(x, ctx, 0)
	}
	if j == 1 || j == 3 {
		pred[1] += mvCompSpec(x, ctx, 1)
	}
	return pred
}

func mvBlock(x *kBlk) {
	kHooks()
	kTables(&x.s)
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			x.t.GlobalMvs[i][j] = vk.IntAt("global", i*2+j, -16384, 16384)
			for k := 0; k < 2; k++ {
				x.t.RefStackMv[i][j][k] = vk.IntAt("stack", i*4+j*2+k, -16384, 16384)
			}
		}
	}
	x.t.NumMvFound = vk.Int("found", 0, 2)
	x.t.RefMvIdx = vk.Int("idx", 0, 1)
	x.u.ForceIntegerMv = vk.Bool("integer")
	x.u.AllowHighPrecisionMv = vk.Bool("high")
}

func mvRead(comp int) {
	var x kBlk
	mvBlock(&x)
	x.t.YMode = shared.NEWMV
	kZero[idMvClass+1-comp] = true
	pos := 0
	if x.t.NumMvFound > 1 {
		pos = x.t.RefMvIdx
	}
	pred := x.t.RefStackMv[pos][0]
	x.t.assignMv(0, &x.b, &x.s, x.sh, x.u)
	want := mvSpec(&x, 0, pred)
	kEnd()
	vk.Assert(x.t.Mv[0] == want, "motion vector")
	vk.Reach("end")
}

//verif:bounds every vertical difference of class 0..10; horizontal ones of class 0; every predictor
func VerifK06_row() { mvRead(0) }

//verif:bounds every horizontal difference of class 0..10; vertical ones of class 0; every predictor
func VerifK06_col() { mvRead(1) }

//verif:bounds every single and compound mode; every predictor and stack of up to 2 entries; differences of class 0
func VerifK06_modes() {
	var x kBlk
	mvBlock(&x)
	kZero[idMvClass] = true
	kZero[idMvClass+1] = true
	x.t.YMode = vk.Int("mode", shared.NEARESTMV, shared.NEW_NEWMV)
	comp := vk.Int("compound", 0, 1)
	vk.Assume((comp == 1) == (x.t.YMode >= shared.NEAREST_NEARESTMV))
	modes := [][2]int{{1, 1}, {2, 2}, {3, 3}, {4, 4},
		{1, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 4}, {4, 2}, {3, 3}, {4, 4}}
	spec := x.t
	x.t.assignMv(comp, &x.b, &x.s, x.sh, x.u)
	for i := 0; i <= comp; i++ {
		m := modes[spec.YMode-shared.NEARESTMV][i]
		want := spec.GlobalMvs[i]
		if m != 3 {
			pos := spec.RefMvIdx
			if m == 1 || m == 4 && spec.NumMvFound <= 1 {
				pos = 0
			}
			want = spec.RefStackMv[pos][i]
		}
		if m == 4 {
			want = mvSpec(&x, 0, want)
		}
		vk.Assert(x.t.Mv[i] == want, "motion vector of a mode")
	}
	kEnd()
	vk.Reach("end")
}

//verif:bounds block copy: every stack; both superblock sizes; block rows 0..64 of tiles starting at rows 0..64; differences of class 0
func VerifK06_copy() {
	var x kBlk
	mvBlock(&x)
	kZero[idMvClass+20] = true
	kZero[idMvClass+21] = true
	x.t.useIntrabc = 1
	x.u.ForceIntegerMv = true
	x.u.AllowHighPrecisionMv = false
	x.s.MiRow = vk.Int("row", 0, 64)
	x.s.MiRowStart = vk.Int("start", 0, 64)
	x.sh.Use128x128SuperBlock = vk.Bool("sb128")
	pred := x.t.RefStackMv[0][0]
	if pred[0] == 0 && pred[1] == 0 {
		pred = x.t.RefStackMv[1][0]
	}
	if pred[0] == 0 && pred[1] == 0 {
		sb := 64
		if x.sh.Use128x128SuperBlock {
			sb = 128
		}
		if x.s.MiRow*4-sb < x.s.MiRowStart*4 {
			pred[1] = -8 * (sb + 256)
		} else {
			pred[0] = -8 * sb
		}
	}
	x.t.assignMv(0, &x.b, &x.s, x.sh, x.u)
	want := mvSpec(&x, 1, pred)
	kEnd()
	vk.Assert(x.t.Mv[0] == want, "block copy vector")
	vk.Reach("end")
}
