package tileinfo

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// tlog is the smallest k with blk<<k >= target.
func tlog(blk, target int) int {
	k := 0
	for blk<<uint(k) < target {
		k++
	}
	return k
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int {
	if a > b {
		return a
	}
	return b
}

type frame struct {
	shift        int // log2 of the superblock size in 4x4 units
	cols, rows   int // frame size in superblocks
	maxW, maxA   int // tile limits in superblocks
	minCL, minTL int
	st           state.State
	sh           sequenceheader.SequenceHeader
	d            []byte
	r            *vkspec.R
}

// newFrame is any frame of cols x rows superblocks.
func newFrame(big bool, cols, rows int) *frame {
	f := &frame{shift: 4, cols: cols, rows: rows, maxW: 64, maxA: 2304}
	if big {
		f.shift, f.maxW, f.maxA = 5, 32, 576
	}
	n := 1 << uint(f.shift)
	f.st.MiCols = (cols-1)*n + 2*vk.IntAt("micols", f.shift, 1, n/2)
	f.st.MiRows = (rows-1)*n + 2*vk.IntAt("mirows", f.shift, 1, n/2)
	f.sh.Use128x128SuperBlock = big
	f.minCL = tlog(f.maxW, cols)
	f.minTL = most(f.minCL, tlog(f.maxA, rows*cols))
	f.d = vk.Bytes("d", 12)
	f.r = &vkspec.R{D: f.d}
	return f
}

func starts(sizes []int, shift, end int) []int {
	out := []int{}
	p := 0
	for _, s := range sizes {
		out = append(out, p<<uint(shift))
		p += s
	}
	return append(out, end)
}

// finish parses and compares: cl, rl are the coded logarithms.
func (f *frame) finish(csz, rsz []int, cl, rl int) {
	id, bytes := 0, f.st.TileSizeBytes
	if cl > 0 || rl > 0 {
		id = f.r.F(cl + rl)
		bytes = f.r.F(2) + 1
	}
	b := bitstream.NewBitStream(f.d)
	t := NewTileInfo(f.sh, &f.st, &b)
	vk.Assert(b.Position == f.r.P, "exactly the coded bits are consumed")
	vk.Assert(f.st.TileCols == len(csz), "tile column count")
	vk.Assert(f.st.TileRows == len(rsz), "tile row count")
	vk.Assert(f.st.TileColsLog2 == cl, "bits of a tile column number")
	vk.Assert(f.st.TileRowsLog2 == rl, "bits of a tile row number")
	c, r := starts(csz, f.shift, f.st.MiCols), starts(rsz, f.shift, f.st.MiRows)
	for i := range c {
		vk.Assert(f.st.MiColStarts[i] == c[i], "tile columns start where coded and end with the frame")
	}
	for i := range r {
		vk.Assert(f.st.MiRowStarts[i] == r[i], "tile rows start where coded and end with the frame")
	}
	vk.Assert(t.ContextUpdateTileId == id, "the tile whose statistics are kept")
	vk.Assert(f.st.TileSizeBytes == bytes, "width of the tile size field")
}

func even(n, l int) (out []int) {
	w := (n + 1<<uint(l) - 1) >> uint(l)
	for p := 0; p < n; p += w {
		out = append(out, least(w, n-p))
	}
	return
}

// incs reads increments from lo to at most hi.
func incs(r *vkspec.R, name string, lo, hi int) int {
	for lo < hi && vk.SplitBool("inc", r.Flag()) {
		lo++
	}
	return lo
}

//verif:bounds uniform spacing; frames of {1,2,3,5,9,33,64,65,130} x {1,2,5,18,40,65} superblocks (thorough adds more) of either size, every frame size within them and every coded number of tiles
func VerifT01_uniform() {
	cs := []int{1, 2, 3, 5, 9, 33, 64, 65, 130}
	rs := []int{1, 2, 5, 18, 40, 65}
	if vk.Thorough() {
		cs = append(cs, 4, 7, 17, 31, 32, 63, 100, 128, 129, 200)
		rs = append(rs, 3, 7, 36, 37, 64, 130)
	}
	big := vk.SplitBool("big", vk.Bool("big"))
	c := cs[vk.Split("c", vk.Int("c", 0, len(cs)-1), 0, len(cs)-1)]
	r := rs[vk.Split("r", vk.Int("r", 0, len(rs)-1), 0, len(rs)-1)]
	f := newFrame(big, c, r)
	vk.Assume(f.r.Flag())
	cl := incs(f.r, "c", f.minCL, tlog(1, least(c, 64)))
	rl := incs(f.r, "r", most(f.minTL-cl, 0), tlog(1, least(r, 64)))
	f.finish(even(c, cl), even(r, rl), cl, rl)
	vk.Reach("end")
}

// sizes reads non-uniform tile sizes over n superblocks.
func sizes(r *vkspec.R, n, max int) (out []int) {
	for p := 0; p < n; {
		m := least(n-p, max)
		s := vk.Split("size", r.Ns(m), 0, m-1) + 1
		out = append(out, s)
		p += s
	}
	return
}

func (f *frame) explicit() {
	vk.Assume(!f.r.Flag())
	csz := sizes(f.r, f.cols, f.maxW)
	area := f.rows * f.cols
	if f.minTL > 0 {
		area >>= uint(f.minTL + 1)
	}
	widest := 0
	for _, s := range csz {
		widest = most(widest, s)
	}
	rsz := sizes(f.r, f.rows, most(area/widest, 1))
	f.finish(csz, rsz, tlog(1, len(csz)), tlog(1, len(rsz)))
}

//verif:bounds explicit spacing; frames of 1..5 x 1..4 superblocks (thorough 1..6 x 1..5) of either size, every frame size within them and every split into tiles
func VerifT01_explicit() {
	mc, mr := 5, 4
	if vk.Thorough() {
		mc, mr = 6, 5
	}
	big := vk.SplitBool("big", vk.Bool("big"))
	c := vk.Split("c", vk.Int("c", 1, mc), 1, mc)
	r := vk.Split("r", vk.Int("r", 1, mr), 1, mr)
	newFrame(big, c, r).explicit()
	vk.Reach("end")
}

//verif:bounds explicit spacing limited by the tile width and area: 66 or 34 columns split in two, 40 or 70 rows in tiles of at least a third of the limit
func VerifT01_limits() {
	big := vk.SplitBool("big", vk.Bool("big"))
	c := 66
	if big {
		c = 34
	}
	r := vk.Split("r", vk.Int("r", 0, 1), 0, 1)*30 + 40
	f := newFrame(big, c, r)
	vk.Assume(!f.r.Flag())
	csz := []int{}
	for p := 0; p < c; {
		m := least(c-p, f.maxW)
		s := f.r.Ns(m)
		if m > 8 {
			vk.Assume(vk.Or(s == m-1, s == m-3))
		}
		s = vk.Split("size", s, 0, m-1) + 1
		csz = append(csz, s)
		p += s
	}
	area := f.rows * f.cols
	if f.minTL > 0 {
		area >>= uint(f.minTL + 1)
	}
	widest := 0
	for _, s := range csz {
		widest = most(widest, s)
	}
	lim := most(area/widest, 1)
	rsz := []int{}
	for p := 0; p < r; {
		m := least(r-p, lim)
		s := f.r.Ns(m)
		if m > 3 {
			vk.Assume(vk.Or(s == m-1, vk.And(s == m/2, p == 0)))
		}
		s = vk.Split("size", s, 0, m-1) + 1
		rsz = append(rsz, s)
		p += s
	}
	f.finish(csz, rsz, tlog(1, len(csz)), tlog(1, len(rsz)))
	vk.Reach("end")
}
