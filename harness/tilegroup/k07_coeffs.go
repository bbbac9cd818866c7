package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// The transform type of the block is given; K08 decides how it is read.
//
//verif:hook internal/tilegroup transformType
//verif:hook internal/tilegroup computeTxType
//verif:hook internal/tilegroup getCoeffBaseCtx
//verif:hook internal/tilegroup getScan
//verif:hook internal/util Min
//verif:hook internal/util Max
//verif:hook internal/util Abs

const (
	cAllZero = 300000 + 10000*iota
	cEobPt
	cEobExtra
	cBaseEob
	cBase
	cBr
	cDcSign
	cType
)

func cid(base, a, p, c int) int { return base + (a*2+p)*50 + c }

func crows3(base, n, k, sz int) (r [][][][]int) {
	for a := 0; a < n; a++ {
		r = append(r, [][][]int{rows(cid(base, a, 0, 0), k, sz), rows(cid(base, a, 1, 0), k, sz)})
	}
	return r
}

func coefTables(s *state.State) {
	for a := 0; a < 5; a++ {
		s.TileTxbSkipCdf = append(s.TileTxbSkipCdf, rows(cid(cAllZero, a, 0, 0), 13, 2))
	}
	pt := func(k, n int) [][][]int {
		return [][][]int{rows(cid(cEobPt, k, 0, 0), 2, n), rows(cid(cEobPt, k, 1, 0), 2, n)}
	}
	s.TileEobPt16Cdf = pt(0, 5)
	s.TileEobPt32Cdf = pt(1, 6)
	s.TileEobPt64Cdf = pt(2, 7)
	s.TileEobPt128Cdf = pt(3, 8)
	s.TileEobPt256Cdf = pt(4, 9)
	s.TileEobPt512Cdf = [][]int{row(cid(cEobPt, 5, 0, 0), 10), row(cid(cEobPt, 5, 1, 0), 10)}
	s.TileEobPt1024Cdf = [][]int{row(cid(cEobPt, 6, 0, 0), 11), row(cid(cEobPt, 6, 1, 0), 11)}
	s.TileEobExtraCdf = crows3(cEobExtra, 5, 9, 2)
	s.TileCoeffBaseEobCdf = crows3(cBaseEob, 5, 4, 3)
	s.TileCoeffBaseCdf = crows3(cBase, 5, 42, 4)
	s.TileCoeffBrCdf = crows3(cBr, 5, 21, 4)
	s.TileDcSignCdf = [][][]int{rows(cid(cDcSign, 0, 0, 0), 3, 2), rows(cid(cDcSign, 0, 1, 0), 3, 2)}
}

// cTypeNow is the transform type of the block; cFast makes small arithmetic
// branch-free.
var cTypeNow int

func cFast() {
	util.VerifHook_Min = func(a, b int) int { return vk.Ite(a < b, a, b) }
	util.VerifHook_Max = func(a, b int) int { return vk.Ite(a > b, a, b) }
	util.VerifHook_Abs = func(a int) int { return vk.Ite(a < 0, -a, a) }
}

// coefBlk is a block of which the coefficients of one transform block at
// 4-sample position (2,3) are read.
func coefBlk(x *kBlk, tx, plane int) {
	kHooks()
	coefTables(&x.s)
	cFast()
	VerifHook_transformType = func(t *TileGroup, x4, y4, sz int, uh uncompressedheader.UncompressedHeader, s *state.State, b *bitstream.BitStream) {
		vk.Assert(plane == 0 && x4 == 3 && y4 == 2 && sz == tx, "the transform type is read for another block")
		kRead(cType, 1)
	}
	VerifHook_computeTxType = func(t *TileGroup, p, sz, x4, y4 int, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) int {
		vk.Assert(p == plane && x4 == 3 && y4 == 2 && sz == tx, "the transform type is that of another block")
		return cTypeNow
	}
	ss := vk.Split("ss", vk.Int("ss", 0, 2), 0, 2)
	x.sh.ColorConfig.SubsamplingX = ss > 0
	x.sh.ColorConfig.SubsamplingY = ss > 1
	x.s.MiSize = 15
	x.s.MiRows, x.s.MiCols = 64, 64
	x.t.AboveLevelContext = make([][]int, 3)
	x.t.AboveDcContext = make([][]int, 3)
	x.t.LeftLevelContext = make([][]int, 3)
	for p := 0; p < 3; p++ {
		x.t.AboveLevelContext[p] = vk.Ints("al"+[]string{"0", "1", "2"}[p], 20, 0, 63)
		x.t.AboveDcContext[p] = vk.Ints("ad"+[]string{"0", "1", "2"}[p], 20, 0, 2)
		x.t.LeftLevelContext[p] = vk.Ints("ll"+[]string{"0", "1", "2"}[p], 20, 0, 63)
		x.t.LeftDcContext[p] = vk.Ints("ld"+[]string{"0", "1", "2"}[p], 20, 0, 2)
	}
}

// cQuiet clears the contexts of the neighbours.
func cQuiet(x *kBlk) {
	for p := 0; p < 3; p++ {
		x.t.AboveLevelContext[p] = make([]int, 20)
		x.t.AboveDcContext[p] = make([]int, 20)
		x.t.LeftLevelContext[p] = make([]int, 20)
		x.t.LeftDcContext[p] = make([]int, 20)
	}
}

// class of a transform type: 0 both directions, 1 horizontal only, 2 vertical.
func cClass(typ int) int {
	switch typ {
	case 10, 12, 14:
		return 2
	case 11, 13, 15:
		return 1
	}
	return 0
}

func cDim(tx int) (int, int) {
	w, h := txW[tx], txH[tx]
	if w > 32 {
		w = 32
	}
	if h > 32 {
		h = 32
	}
	return w, h
}

// cSize is the size category of the coefficient tables.
func cSize(tx int) int {
	a, b := lg(txW[tx])-2, lg(txH[tx])-2
	if a > b {
		a, b = b, a
	}
	return (a + b + 1) / 2
}

// cScan is the position of the c-th coefficient.
func cScan(tx, typ int) []int {
	w, h := cDim(tx)
	var r []int
	cl := cClass(typ)
	if cl == 2 || cl == 1 {
		for i := 0; i < w*h; i++ {
			if cl == 2 {
				r = append(r, i)
			} else {
				r = append(r, i%h*w+i/h)
			}
		}
		return r
	}
	for d := 0; d < w+h-1; d++ {
		down := h > w || w == h && d%2 == 1
		for k := 0; k <= d; k++ {
			y := d - k
			if down {
				y = k
			}
			if y < h && d-y < w {
				r = append(r, y*w+d-y)
			}
		}
	}
	return r
}

// cNear sums the magnitudes of neighbours, each capped.
func cNear(q []int, w, h, pos, most int, d [][2]int) int {
	m := 0
	for _, e := range d {
		r, c := pos/w+e[0], pos%w+e[1]
		if r < h && c < w {
			m += umin(q[r*w+c], most)
		}
	}
	return m
}

var cNearBase = [][][2]int{
	{{0, 1}, {1, 0}, {1, 1}, {0, 2}, {2, 0}},
	{{0, 1}, {1, 0}, {0, 2}, {0, 3}, {0, 4}},
	{{0, 1}, {1, 0}, {2, 0}, {3, 0}, {4, 0}},
}

var cNearBr = [][][2]int{
	{{0, 1}, {1, 0}, {1, 1}},
	{{0, 1}, {1, 0}, {0, 2}},
	{{0, 1}, {1, 0}, {2, 0}},
}

func cBaseCtx(q []int, tx, class, pos int) int {
	w, h := cDim(tx)
	m := umin((cNear(q, w, h, pos, 3, cNearBase[class])+1)>>1, 4)
	r, c := pos/w, pos%w
	switch class {
	case 1:
		return m + 26 + 5*umin(c, 2)
	case 2:
		return m + 26 + 5*umin(r, 2)
	}
	switch {
	case pos == 0:
		return 0
	case txW[tx] < txH[tx] && r < 2:
		return m + 11
	case txW[tx] > txH[tx] && c < 2:
		return m + 16
	case r+c < 2:
		return m + 1
	case r+c < 4:
		return m + 6
	}
	return m + 21
}

func cBrCtx(q []int, tx, class, pos int) int {
	w, h := cDim(tx)
	m := umin((cNear(q, w, h, pos, 15, cNearBr[class])+1)>>1, 6)
	r, c := pos/w, pos%w
	near := class == 0 && r < 2 && c < 2 || class == 1 && c == 0 || class == 2 && r == 0
	switch {
	case pos == 0:
		return m
	case near:
		return m + 7
	}
	return m + 14
}

func cEobCtx(tx, c int) int {
	w, h := cDim(tx)
	switch {
	case c == 0:
		return 0
	case c <= w*h/8:
		return 1
	case c <= w*h/4:
		return 2
	}
	return 3
}

// cAllZeroCtx and cSignCtx are the contexts of a block at (2,3).
func cAllZeroCtx(x *kBlk, tx, plane, bw, bh int) int {
	w4, h4 := txW[tx]/4, txH[tx]/4
	cols, rws := x.s.MiCols, x.s.MiRows
	if plane > 0 {
		cols >>= vkspec.B(x.sh.ColorConfig.SubsamplingX)
		rws >>= vkspec.B(x.sh.ColorConfig.SubsamplingY)
	}
	if plane == 0 {
		top, left := 0, 0
		for k := 0; k < w4; k++ {
			v := x.t.AboveLevelContext[0][3+k]
			top = vk.Ite(3+k < cols, umax(top, v), top)
		}
		for k := 0; k < h4; k++ {
			v := x.t.LeftLevelContext[0][2+k]
			left = vk.Ite(2+k < rws, umax(left, v), left)
		}
		top, left = umin(top, 255), umin(left, 255)
		hi, lo := umax(top, left), umin(top, left)
		return vk.Ite(vk.And(bw == txW[tx], bh == txH[tx]), 0,
			vk.Ite(hi == 0, 1,
				vk.Ite(lo == 0, vk.Ite(hi > 3, 3, 2),
					vk.Ite(hi <= 3, 4, vk.Ite(lo <= 3, 5, 6)))))
	}
	a, l := false, false
	for k := 0; k < w4; k++ {
		a = vk.Or(a, vk.And(3+k < cols, vk.Or(x.t.AboveLevelContext[plane][3+k] != 0, x.t.AboveDcContext[plane][3+k] != 0)))
	}
	for k := 0; k < h4; k++ {
		l = vk.Or(l, vk.And(2+k < rws, vk.Or(x.t.LeftLevelContext[plane][2+k] != 0, x.t.LeftDcContext[plane][2+k] != 0)))
	}
	return 7 + vk.Ite(a, 1, 0) + vk.Ite(l, 1, 0) + vk.Ite(bw*bh > txW[tx]*txH[tx], 3, 0)
}

func cSignCtx(x *kBlk, tx, plane int) int {
	cols, rws := x.s.MiCols, x.s.MiRows
	if plane > 0 {
		cols >>= vkspec.B(x.sh.ColorConfig.SubsamplingX)
		rws >>= vkspec.B(x.sh.ColorConfig.SubsamplingY)
	}
	n := 0
	for k := 0; k < txW[tx]/4; k++ {
		v := x.t.AboveDcContext[plane][3+k]
		n = vk.Ite(3+k < cols, vk.Ite(v == 1, n-1, vk.Ite(v == 2, n+1, n)), n)
	}
	for k := 0; k < txH[tx]/4; k++ {
		v := x.t.LeftDcContext[plane][2+k]
		n = vk.Ite(2+k < rws, vk.Ite(v == 1, n-1, vk.Ite(v == 2, n+1, n)), n)
	}
	return vk.Ite(n < 0, 1, vk.Ite(n > 0, 2, 0))
}

var cOneOfClass = []int{0, 11, 10}

//verif:bounds every transform size, one type of each class, every position within 6 (base levels) or 2 (increments) of an edge of the block, every magnitude of the neighbours up to 32767
//verif:loop 5000
func VerifK07_contexts() {
	var x kBlk
	tx := vk.Split("tx", vk.Int("tx", 0, 18), 0, 18)
	class := vk.Split("class", vk.Int("class", 0, 2), 0, 2)
	coefBlk(&x, tx, 0)
	cTypeNow = cOneOfClass[class]
	w, h := cDim(tx)
	q := vk.Ints("q", w*h, 0, 32767)
	for i := range q {
		x.t.Quant[i] = q[i]
	}
	ptype := vk.Split("ptype", vk.Int("ptype", 0, 1), 0, 1)
	for r := 0; r < h; r++ {
		for c := 0; c < w; c++ {
			if !vk.Thorough() && (r >= 6 && r < h-6 || c >= 6 && c < w-6) {
				continue
			}
			pos := r*w + c
			got := x.t.getCoeffBaseCtx(tx, 0, 3, 2, pos, 1, false, &x.s, x.u, x.sh)
			vk.Assert(got == cBaseCtx(q, tx, class, pos), "the context of a base level")
			if !vk.Thorough() && (r >= 3 && r < h-2 || c >= 3 && c < w-2) {
				continue
			}
			kN = 0
			x.t.readCoeffBrSymbol(tx, pos, 0, 3, 2, cSize(tx), ptype, &x.s, &x.b, x.u, x.sh)
			vk.Assert(kN == 1 && kIds[0] == cid(cBr, vk.Ite(cSize(tx) < 3, cSize(tx), 3), ptype, cBrCtx(q, tx, class, pos)), "the context of a level increment")
		}
	}
	vk.Reach("end")
}

//verif:bounds every transform size and type; whole scan tables
//verif:loop 5000
func VerifK07_scan() {
	var x kBlk
	tx := vk.Split("tx", vk.Int("tx", 0, 18), 0, 18)
	typ := vk.Split("type", vk.Int("type", 0, 15), 0, 15)
	if txW[tx] > 16 || txH[tx] > 16 {
		vk.Assume(typ == 0 || typ == 9) // the only types of large blocks
	}
	if txW[tx] > 32 || txH[tx] > 32 {
		vk.Assume(typ == 0)
	}
	coefBlk(&x, tx, 0)
	cTypeNow = typ
	x.t.PlaneTxType = typ
	got := x.t.getScan(tx)
	want := cScan(tx, typ)
	vk.Assert(len(got) >= len(want), "the scan covers the block")
	for i := range want {
		vk.Assert(got[i] == want[i], "the order of the coefficients")
	}
	vk.Reach("end")
}

//verif:loop 1100
//verif:bounds every transform size in blocks of its size or double its width or height, subsampling 4:4:4, 4:2:2 and 4:2:0, every neighbouring context, frame ends anywhere inside or after the block (even number of 4-sample units)
func VerifK07_allZero() {
	var x kBlk
	tx := vk.Split("tx", vk.Int("tx", 0, 18), 0, 18)
	plane := vk.Split("plane", vk.Int("plane", 0, 2), 0, 2)
	coefBlk(&x, tx, plane)
	x.s.MiSize = vk.Split("size", vk.Int("size", 0, 21), 0, 21)
	x.s.MiCols = 2 * vk.Int("cols", 4, 16)
	x.s.MiRows = 2 * vk.Int("rows", 4, 16)
	bw, bh := specW4[x.s.MiSize]*4, specH4[x.s.MiSize]*4
	if plane > 0 {
		// vertical blocks do not exist in 4:2:2
		vk.Assume(bh <= bw || x.sh.ColorConfig.SubsamplingX == x.sh.ColorConfig.SubsamplingY)
		bw >>= vkspec.B(x.sh.ColorConfig.SubsamplingX)
		bh >>= vkspec.B(x.sh.ColorConfig.SubsamplingY)
		if bw < 4 {
			bw = 4
		}
		if bh < 4 {
			bh = 4
		}
	}
	w, h := txW[tx], txH[tx]
	vk.Assume((bw == w || bw == 2*w) && (bh == h || bh == 2*h))
	want := cAllZeroCtx(&x, tx, plane, bw, bh)
	x.t.allZeroSymbol(plane, tx, txW[tx]/4, txH[tx]/4, 3, 2, cSize(tx), &x.s, &x.b, x.u, x.sh)
	vk.Assert(kN == 1 && kIds[0] == cid(cAllZero, cSize(tx), 0, 0)+want, "the context of the all-zero flag")
	vk.Reach("end")
}

//verif:bounds every transform size, luma and chroma in 4:4:4, 4:2:2 and 4:2:0, every neighbouring context, frame ends anywhere inside or after the block (even number of 4-sample units)
//verif:loop 1100
func VerifK07_sign() {
	var x kBlk
	tx := vk.Split("tx", vk.Int("tx", 0, 18), 0, 18)
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	coefBlk(&x, tx, plane)
	vk.Assume(plane == 1 || !x.sh.ColorConfig.SubsamplingX)
	x.s.MiCols = 2 * vk.Int("cols", 4, 16)
	x.s.MiRows = 2 * vk.Int("rows", 4, 16)
	sign := cSignCtx(&x, tx, plane)
	kN = 0
	x.t.readDcSignSymbol(plane, txW[tx]/4, txH[tx]/4, 3, 2, vkspec.B(plane > 0), &x.s, &x.b, x.u, x.sh)
	vk.Assert(kN == 1 && kIds[0] == cid(cDcSign, 0, vkspec.B(plane > 0), 0)+sign, "the context of the sign of the first coefficient")
	vk.Reach("end")
}

// eobSpec reads the number of coefficients.
func eobSpec(tx, p, class int) int {
	w, h := cDim(tx)
	k := lg(w) + lg(h) - 4
	ctx := 0
	if class > 0 && k < 5 {
		ctx = 1
	}
	pt := sym(cid(cEobPt, k, p, ctx)) + 1
	if pt < 3 {
		return pt
	}
	n := pt - 2
	e := 1<<n + 1
	if sym(cid(cEobExtra, cSize(tx), p, n-1)) == 1 {
		e += 1 << (n - 1)
	}
	for i := n - 2; i >= 0; i-- {
		e += lit(1) << i
	}
	return e
}

//verif:loop 1100
//verif:bounds every transform size with each class and plane type, every number of coefficients
func VerifK07_count() {
	var x kBlk
	tx := vk.Split("tx", vk.Int("tx", 0, 18), 0, 18)
	class := vk.Split("class", vk.Int("class", 0, 2), 0, 2)
	plane := class / 2
	if txW[tx] > 16 || txH[tx] > 16 {
		plane = class
		class = 0
	}
	coefBlk(&x, tx, plane)
	cTypeNow = cOneOfClass[class]
	cQuiet(&x)
	symbol.VerifHook_ReadSymbol = func(cdf []int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
		if cdf[0] >= cAllZero && cdf[0] < cEobPt {
			return 0
		}
		v := kRead(cdf[0], len(cdf)-1)
		if cdf[0] >= cEobPt && cdf[0] < cEobExtra {
			v = vk.Split("pt", v, 0, 10)
			kVals[kN-1] = v
		}
		return v
	}
	VerifHook_getScan = func(t *TileGroup, sz int) []int { return make([]int, 1024) }
	VerifHook_getCoeffBaseCtx = func(t *TileGroup, sz, p, bx, by, pos, c int, isEob bool, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) int {
		if plane == 0 {
			sym(cType)
		}
		vk.Assert(isEob && c == eobSpec(tx, vkspec.B(plane > 0), class)-1, "the number of coefficients")
		kEnd()
		vk.Reach("end")
		vk.Assume(false)
		return 0
	}
	x.t.coeffs(plane, 12, 8, tx, &x.b, x.u, &x.s, x.sh)
}

// levelSpec reads the levels and signs of a block of n coefficients into q.
func levelSpec(x *kBlk, tx, plane, class, n, sign int, q []int) (cul, dc int) {
	p := vkspec.B(plane > 0)
	sz := cSize(tx)
	scan := cScan(tx, cOneOfClass[class])
	for c := n - 1; c >= 0; c-- {
		pos := scan[c]
		l := 0
		if c == n-1 {
			l = sym(cid(cBaseEob, sz, p, cEobCtx(tx, c))) + 1
		} else {
			l = sym(cid(cBase, sz, p, 0) + cBaseCtx(q, tx, class, pos))
		}
		if l > 2 {
			for k := 0; k < 4; k++ {
				v := sym(cid(cBr, vk.Ite(sz < 3, sz, 3), p, 0) + cBrCtx(q, tx, class, pos))
				l += v
				if v < 3 {
					break
				}
			}
		}
		q[pos] = l
	}
	for c := 0; c < n; c++ {
		pos := scan[c]
		if q[pos] == 0 {
			continue
		}
		s := 0
		if c == 0 {
			s = sym(cid(cDcSign, 0, p, 0) + sign)
		} else {
			s = lit(1)
		}
		if q[pos] > 14 {
			k := 0
			for lit(1) == 0 {
				k++
			}
			v := 1
			for i := 0; i < k; i++ {
				v = v<<1 | lit(1)
			}
			q[pos] = (v + 14) % (1 << 20)
		}
		cul += q[pos]
		if c == 0 {
			dc = 2 - s
		}
		q[pos] = vk.Ite(s == 1, -q[pos], q[pos])
	}
	return umin(cul, 63), dc
}

// coefRun reads a block of at most most coefficients.  Values that decide
// which element follows are explored case by case; there is one Golomb code of at most
// golomb bits, or none if that is 0, and only
// levels up to 5 if it is negative.
func coefRun(x *kBlk, tx, plane, class, most, golomb int, dcZero bool) {
	coefBlk(x, tx, plane)
	cTypeNow = cOneOfClass[class]
	cQuiet(x)
	full, prefix := 0, 0
	vk.Pin(&full)
	vk.Pin(&prefix)
	at := func(v int) int { kVals[kN-1] = v; return v }
	symbol.VerifHook_ReadSymbol = func(cdf []int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
		id := cdf[0]
		v := kRead(id, len(cdf)-1)
		switch {
		case id >= cEobPt && id < cEobExtra:
			vk.Assume(v <= lg(most))
			return at(vk.Split("pt", v, 0, 10))
		case id >= cEobExtra && id < cBaseEob:
			return at(vk.Split("extra", v, 0, 1))
		case id >= cBaseEob && id < cBase:
			full = 0
			if vk.SplitBool("high", v == 2) {
				return at(2)
			}
		case id >= cBase && id < cBr:
			full = 0
			if dcZero {
				vk.Assume(v == 0)
				return at(0)
			}
			if vk.SplitBool("high", v == 3) {
				return at(3)
			}
			if vk.SplitBool("none", v == 0) {
				return at(0)
			}
		case id >= cBr && id < cDcSign:
			full++
			if full == 4 && golomb == 0 || golomb < 0 {
				vk.Assume(v < 3)
				return v
			}
			if vk.SplitBool("full", v == 3) {
				return at(3)
			}
		}
		return v
	}
	literal.VerifHook_L = func(n int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
		v := kRead(idLit+n, 1<<n)
		if golomb <= 0 || prefix < 0 || dcZero && kIds[kN-2] != idLit+1 {
			return v // a sign or a bit of the value
		}
		prefix++
		vk.Assume(prefix < golomb || v == 1)
		if vk.SplitBool("prefix", v == 1) {
			prefix = -1
			return at(1)
		}
		return at(0)
	}
	w, h := cDim(tx)
	for i := 0; i < w*h; i++ {
		x.t.Quant[i] = -5
	}
	x.t.Dequant[1][2] = 7
	x.t.TxTypes[2][3] = 12
	x.t.TxTypes[2+txH[tx]/4-1][3+txW[tx]/4-1] = 12
	bw, bh := 128, 128
	if plane > 0 {
		bw >>= vkspec.B(x.sh.ColorConfig.SubsamplingX)
		bh >>= vkspec.B(x.sh.ColorConfig.SubsamplingY)
	}
	zero := cAllZeroCtx(x, tx, plane, bw, bh)
	sign := cSignCtx(x, tx, plane)
	got := x.t.coeffs(plane, 12, 8, tx, &x.b, x.u, &x.s, x.sh)
	n, cul, dc := 0, 0, 0
	q := make([]int, w*h)
	if sym(cid(cAllZero, cSize(tx), 0, 0)+zero) == 0 {
		if plane == 0 {
			sym(cType)
		}
		n = eobSpec(tx, vkspec.B(plane > 0), class)
		cul, dc = levelSpec(x, tx, plane, class, n, sign, q)
		vk.Reach("some")
	} else if plane == 0 {
		vk.Assert(x.t.TxTypes[2][3] == 0 && x.t.TxTypes[2+txH[tx]/4-1][3+txW[tx]/4-1] == 0, "the type of an empty block")
	}
	kEnd()
	vk.Assert(got == n, "the number of coefficients is returned")
	for i := range q {
		vk.Assert(x.t.Quant[i] == q[i], "the value of a coefficient")
	}
	vk.Assert(x.t.Dequant[1][2] == 0, "earlier dequantized values are dropped")
	up, left := true, true
	for i := 0; i < txW[tx]/4; i++ {
		up = vk.And(up, vk.And(x.t.AboveLevelContext[plane][3+i] == cul, x.t.AboveDcContext[plane][3+i] == dc))
	}
	for i := 0; i < txH[tx]/4; i++ {
		left = vk.And(left, vk.And(x.t.LeftLevelContext[plane][2+i] == cul, x.t.LeftDcContext[plane][2+i] == dc))
	}
	vk.Assert(up, "the contexts left below the block")
	vk.Assert(left, "the contexts left to the right of the block")
	vk.Reach("end")
}

//verif:bounds every transform size, up to 2 coefficients, no Golomb codes
//verif:loop 5000
func VerifK07_two() {
	var x kBlk
	tx := vk.Split("tx", vk.Int("tx", 0, 18), 0, 18)
	class := tx % 3
	if txW[tx] > 16 || txH[tx] > 16 {
		class = 0
	}
	coefRun(&x, tx, tx/3%2, class, 2, 0, false)
}

//verif:bounds one coefficient of every level and sign, Golomb prefixes of at most 20 bits
//verif:loop 5000
func VerifK07_one() {
	var x kBlk
	plane := vk.Split("plane", vk.Int("plane", 0, 1), 0, 1)
	coefRun(&x, 0, plane, 0, 1, 20, false)
}

//verif:bounds a zero first coefficient and a second one of every level and sign, Golomb prefixes of at most 20 bits
//verif:loop 5000
func VerifK07_second() {
	var x kBlk
	coefRun(&x, 6, 0, 2, 2, 20, true)
}

//verif:bounds 4x4 blocks of each class, up to 4 coefficients of levels up to 5
//verif:loop 5000
func VerifK07_four() {
	var x kBlk
	class := vk.Split("class", vk.Int("class", 0, 2), 0, 2)
	coefRun(&x, 0, 0, class, 4, -1, false)
}
