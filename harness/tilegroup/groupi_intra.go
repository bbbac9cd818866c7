package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/util Clip3

// iFast puts one term in the place of the branches of Clip3; VerifI01_limit
// shows that they are the same.
func iFast() {
	util.VerifHook_Clip3 = func(lo, hi, x int) int { return vk.Ite(x < lo, lo, vk.Ite(hi < x, hi, x)) }
}

func iClip(x, depth int) int {
	hi := 1<<depth - 1
	return vk.Ite(x < 0, 0, vk.Ite(hi < x, hi, x))
}

var iWide = []int{4, 8, 16, 32, 64, 4, 8, 8, 16, 16, 32, 32, 64, 4, 16, 8, 32, 16, 64}
var iHigh = []int{4, 8, 16, 32, 64, 8, 4, 16, 8, 32, 16, 64, 32, 16, 4, 32, 8, 64, 16}

func iLog(n int) int {
	l := 0
	for 1<<l < n {
		l++
	}
	return l
}

// iBlk is one prediction.
type iBlk struct {
	t                 *TileGroup
	s                 *state.State
	sh                sequenceheader.SequenceHeader
	plane, x, y, w, h int
	depth             int
	left, above       bool
	right, below      bool
	maxX, maxY        int
	old               [][]int
	a, l              []int // edges, from position 16
}

// iNew makes a block at (x,y) in a frame of miCols by miRows units with
// arbitrary samples along its edges: all of them, or with sparse the first,
// second, middle and last of every block length.
func iNew(size, plane, depth, x, y, miCols, miRows int, sub, sparse bool) *iBlk {
	iFast()
	b := &iBlk{t: &TileGroup{}, s: &state.State{}, plane: plane, depth: depth, x: x, y: y}
	b.w, b.h = iWide[size], iHigh[size]
	b.sh.ColorConfig.BitDepth = depth
	b.sh.ColorConfig.SubsamplingX, b.sh.ColorConfig.SubsamplingY = sub, sub
	b.s.MiCols, b.s.MiRows = miCols, miRows
	b.maxX, b.maxY = miCols*4-1, miRows*4-1
	if plane > 0 && sub {
		b.maxX, b.maxY = miCols*2-1, miRows*2-1
	}
	name := []string{"sample8", "sample10", "sample12"}[depth/2-4]
	b.old = make([][]int, y+2*b.h)
	for i := range b.old {
		b.old[i] = make([]int, x+2*b.w)
		for j := range b.old[i] {
			b.old[i][j] = (i*37 + j*11) % 251
			if i == y-1 && j >= x-1 || j == x-1 && i >= y {
				k := i - y + j - x + 1
				m := k % b.w
				if i != y-1 {
					m = k % b.h
				}
				if !sparse || m < 2 || m == b.h-1 || m == b.w/2 {
					b.old[i][j] = vk.IntAt(name, i*512+j, 0, 1<<depth-1)
				}
			}
		}
	}
	for p := range b.s.CurrFrame {
		b.s.CurrFrame[p] = make([][]int, len(b.old))
		for i := range b.old {
			b.s.CurrFrame[p][i] = append([]int(nil), b.old[i]...)
		}
	}
	return b
}

func (b *iBlk) have(left, above, right, below bool) {
	b.left, b.above, b.right, b.below = left, above, right, below
	n := b.w + b.h
	b.a, b.l = make([]int, 16+2*n), make([]int, 16+2*n)
	half := 1 << (b.depth - 1)
	at := func(x, y int) int { return b.old[y][x] }
	min := func(x, y int) int {
		if y < x {
			return y
		}
		return x
	}
	for i := 0; i < n; i++ {
		switch {
		case above:
			lim := b.x + b.w - 1
			if right {
				lim += b.w
			}
			b.a[16+i] = at(min(min(b.maxX, lim), b.x+i), b.y-1)
		case left:
			b.a[16+i] = at(b.x-1, b.y)
		default:
			b.a[16+i] = half - 1
		}
		switch {
		case left:
			lim := b.y + b.h - 1
			if below {
				lim += b.h
			}
			b.l[16+i] = at(b.x-1, min(min(b.maxY, lim), b.y+i))
		case above:
			b.l[16+i] = at(b.x, b.y-1)
		default:
			b.l[16+i] = half + 1
		}
	}
	c := half
	switch {
	case above && left:
		c = at(b.x-1, b.y-1)
	case above:
		c = at(b.x, b.y-1)
	case left:
		c = at(b.x-1, b.y)
	}
	b.a[15], b.l[15] = c, c
}

// A, L read the edges.
func (b *iBlk) A(i int) int { return b.a[16+i] }
func (b *iBlk) L(i int) int { return b.l[16+i] }

// check predicts and compares the whole plane.
func (b *iBlk) check(mode int, want func(i, j int) int) {
	b.t.predictIntra(b.plane, b.x, b.y, b.left, b.above, b.right, b.below, mode, iLog(b.w), iLog(b.h), b.s, b.sh)
	for y := range b.old {
		for x := range b.old[y] {
			v := b.old[y][x]
			if y >= b.y && y < b.y+b.h && x >= b.x && x < b.x+b.w {
				v = want(y-b.y, x-b.x)
			}
			vk.Assert(b.s.CurrFrame[b.plane][y][x] == v, "predicted sample")
		}
	}
	vk.Reach("end")
}

// iHave chooses which neighbours exist.
func (b *iBlk) iHave() {
	n := vk.Split("have", vk.Int("have", 0, 7), 0, 7)
	b.have(n&1 != 0, n&2 != 0, n&4 != 0, n&4 == 0)
}

func iDepth() int { return 8 + 2*vk.Split("d", vk.Int("depth", 0, 2), 0, 2) }

// Block dimensions in 4-sample units.
var iBW = []int{1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16}
var iBH = []int{1, 2, 1, 2, 4, 2, 4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 4, 1, 8, 2, 16, 4}
