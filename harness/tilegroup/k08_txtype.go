package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

const (
	yIntra1 = 400000 + 1000*iota
	yIntra2
	yInter1
	yInter2
	yInter3
)

// The kinds of transforms a block may choose from, by set.
var ySets = [][]int{
	{0},
	{9, 0, 10, 11, 3, 1, 2},
	{9, 0, 3, 1, 2},
	{9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 4, 5, 3, 6, 7, 8},
	{9, 10, 11, 0, 1, 2, 4, 5, 3, 6, 7, 8},
	{9, 0},
}

// ySet is the set of a transform size.
func ySet(tx int, inter, reduced bool) int {
	small, large := txW[tx], txH[tx]
	if small > large {
		small, large = large, small
	}
	switch {
	case large == 64:
		return 0
	case inter && (reduced || large == 32):
		return 5
	case inter && small == 16:
		return 4
	case inter:
		return 3
	case large == 32:
		return 0
	case reduced || small == 16:
		return 2
	}
	return 1
}

func yHas(set, typ int) bool {
	r := false
	for _, v := range ySets[set] {
		r = vk.Or(r, v == typ)
	}
	return r
}

func pick(t []int, i int) int {
	r := t[0]
	for k := range t {
		r = vk.Ite(i == k, t[k], r)
	}
	return r
}

func yBlock(x *kBlk) (tx int, inter bool) {
	kHooks()
	x.s.TileIntraTxTypeSet1Cdf = [][][]int{rows(yIntra1, 13, 7), rows(yIntra1+20, 13, 7)}
	x.s.TileIntraTxTypeSet2Cdf = [][][]int{rows(yIntra2, 13, 5), rows(yIntra2+20, 13, 5), rows(yIntra2+40, 13, 5)}
	x.s.TileInterTxTypeSet1Cdf = rows(yInter1, 2, 16)
	x.s.TileInterTxTypeSet2Cdf = row(yInter2, 12)
	x.s.TileInterTxTypeSet3Cdf = rows(yInter3, 4, 2)
	tx = vk.Split("tx", vk.Int("tx", 0, 18), 0, 18)
	inter = vk.SplitBool("inter", vk.Bool("inter"))
	x.t.IsInter = vkspec.B(inter)
	x.u.ReducedTxSet = vk.SplitBool("reduced", vk.Bool("reduced"))
	return
}

//verif:bounds every transform size, set, mode, and quantizer index with and without segmentation
func VerifK08_read() {
	var x kBlk
	tx, inter := yBlock(&x)
	x.t.UseFilterIntra = vk.SplitBool("filter", vk.Bool("filter"))
	x.t.FilterIntraMode = vk.Int("fmode", 0, 4)
	x.t.YMode = vk.Int("ymode", 0, 12)
	x.u.BaseQIdx = vk.Int("q", 0, 255)
	x.u.SegmentationEnabled = vk.SplitBool("seg", vk.Bool("seg"))
	x.u.DeltaQPresent = vk.Bool("dq")
	x.s.CurrentQIndex = vk.Int("cq", 1, 255)
	x.t.SegmentId = vk.Split("segid", vk.Int("segid", 0, 1), 0, 1) * 7
	x.s.FeatureEnabled[x.t.SegmentId][0] = vk.Int("fe", 0, 1)
	x.s.FeatureData[x.t.SegmentId][0] = vk.Int("fd", -255, 255)
	for i := 0; i < 17; i++ {
		for j := 0; j < 17; j++ {
			x.t.TxTypes[2+i][3+j] = 99
		}
	}
	x.t.transformType(3, 2, tx, x.u, &x.s, &x.b)

	q := x.u.BaseQIdx
	if x.u.SegmentationEnabled && x.s.FeatureEnabled[x.t.SegmentId][0] == 1 {
		q = vkspec.Clip3(0, 255, q+x.s.FeatureData[x.t.SegmentId][0])
	}
	set := ySet(tx, inter, x.u.ReducedTxSet)
	small := lg4(tx)
	want := 0
	if set > 0 && q > 0 {
		dir := x.t.YMode
		if x.t.UseFilterIntra {
			dir = pick([]int{0, 1, 2, 6, 0}, x.t.FilterIntraMode)
		}
		want = pick(ySets[set], sym([]int{0, yIntra1 + 20*small + dir, yIntra2 + 20*small + dir, yInter1 + small, yInter2, yInter3 + small}[set]))
		vk.Reach("read")
	}
	kEnd()
	ok := true
	for i := 0; i < 17; i++ {
		for j := 0; j < 17; j++ {
			in := i < txH[tx]/4 && j < txW[tx]/4
			v := x.t.TxTypes[2+i][3+j]
			ok = vk.And(ok, in && v == want || !in && v == 99)
		}
	}
	vk.Assert(ok, "the type covers exactly the transform block")
	vk.Reach("end")
}

// lg4 is the logarithm of the smaller side in units of 4 samples.
func lg4(tx int) int {
	r := 0
	for 8<<r <= txW[tx] && 8<<r <= txH[tx] {
		r++
	}
	return r
}

//verif:bounds every transform size, plane, chroma mode and luma type at the block, lossless or not; block at 4-sample position (5,5), subsampling 4:4:4, 4:2:2 and 4:2:0
func VerifK08_type() {
	var x kBlk
	tx, inter := yBlock(&x)
	plane := vk.Split("plane", vk.Int("plane", 0, 2), 0, 2)
	ss := vk.Split("ss", vk.Int("ss", 0, 2), 0, 2)
	x.sh.ColorConfig.SubsamplingX = ss > 0
	x.sh.ColorConfig.SubsamplingY = ss > 1
	x.s.MiRow, x.s.MiCol = 5, 5
	x.t.Lossless = vk.Bool("lossless")
	x.t.UVMode = vk.Int("uvmode", 0, 13)
	for i := 0; i < 20; i++ {
		for j := 0; j < 20; j++ {
			x.t.TxTypes[i][j] = vk.IntAt("types", i*20+j, 0, 15)
		}
	}
	// the chroma block starts at the luma block, rounded down, or one unit on
	bx := (5 + vk.Split("dx", vk.Int("dx", 0, 2), 0, 2)) >> vkspec.B(plane > 0 && ss > 0)
	by := (5 + vk.Split("dy", vk.Int("dy", 0, 2), 0, 2)) >> vkspec.B(plane > 0 && ss > 1)
	got := x.t.computeTxType(plane, tx, bx, by, &x.s, x.u, x.sh)

	set := ySet(tx, inter, x.u.ReducedTxSet)
	ly, lx := by, bx
	want := 0
	if plane > 0 {
		ly, lx = by<<vkspec.B(ss > 1), bx<<vkspec.B(ss > 0)
		if ly < 5 {
			ly = 5
		}
		if lx < 5 {
			lx = 5
		}
	}
	switch {
	case plane == 0 || inter:
		want = x.t.TxTypes[ly][lx]
	default:
		want = pick([]int{0, 1, 2, 0, 3, 1, 2, 2, 1, 3, 1, 2, 3, 0}, x.t.UVMode)
	}
	if plane > 0 {
		want = vk.Ite(yHas(set, want), want, 0)
	}
	if txW[tx] == 64 || txH[tx] == 64 {
		want = 0
	}
	vk.Assert(got == vk.Ite(x.t.Lossless, 0, want), "the transform type of a block")
	vk.Reach("end")
}
