package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/tilegroup predictIntra
//verif:hook internal/tilegroup predictInter

type pEv struct{ plane, x, y, w, h, row, col int }

//verif:bounds every block size in 4:4:4, 4:2:2, 4:2:0 and monochrome at 4-sample positions 18..19, superblocks of 64 and 128; intra, inter and interintra blocks with every mode; neighbours that share a chroma block intra or inter
//verif:loop 2000
func VerifI05_blocks() {
	var t TileGroup
	var s state.State
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	size := vk.Split("size", vk.Int("size", 0, 21), 0, 21)
	ss := vk.Split("ss", vk.Int("ss", 0, 3), 0, 3)
	r := vk.Split("row", vk.Int("row", 18, 19), 18, 19)
	c := vk.Split("col", vk.Int("col", 18, 19), 18, 19)
	w, h := iBW[size], iBH[size]
	for _, p := range [][2]int{{w, c}, {h, r}} {
		vk.Assume(p[0] == 1 || p[1] == 18)
	}
	if w > 2 || h > 2 {
		r, c = 16, 16
		if w > 16 || h > 16 {
			r, c = 0, 0
		}
	}
	subX, subY := 0, 0
	if ss == 1 || ss == 2 {
		subX = 1
	}
	if ss == 1 {
		subY = 1
	}
	vk.Assume(ss != 2 || h <= w)
	sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = subX == 1, subY == 1
	sh.Use128x128SuperBlock = vk.SplitBool("sb128", vk.Bool("sb128"))
	vk.Assume(sh.Use128x128SuperBlock || w <= 16 && h <= 16)
	t.HasChroma = ss != 3 && !(subY == 1 && h == 1 && r%2 == 0) && !(subX == 1 && w == 1 && c%2 == 0)
	s.MiRow, s.MiCol, s.MiSize = r, c, size
	s.AvailU, s.AvailL, s.AvailUChroma, s.AvailLChroma = vk.Bool("u"), vk.Bool("l"), vk.Bool("uc"), vk.Bool("lc")
	kind := vk.Split("kind", vk.Int("kind", 0, 2), 0, 2) // intra, inter, interintra
	t.InterIntraMode = vk.Int("iimode", 0, 3)
	s.RefFrame = [2]int{vk.Int("ref", 1, 7), -1}
	switch kind {
	case 0:
		s.RefFrame[0] = 0
	case 1:
		t.IsInter = 1
	case 2:
		t.IsInter = 1
		s.RefFrame[1] = 0
	}
	// the blocks before this one in its chroma block
	near := [3]bool{}
	for i, p := range [][2]int{{-1, -1}, {-1, 0}, {0, -1}} {
		near[i] = vk.SplitBool("near", vk.BoolAt("near", i))
		if r > 0 && c > 0 {
			if !near[i] {
				s.RefFrames[r+p[0]][c+p[1]] = [2]int{1, -1}
				if p[0] == 0 {
					s.RefFrames[r+1][c-1] = [2]int{1, -1}
				}
				if p[1] == 0 {
					s.RefFrames[r-1][c+1] = [2]int{1, -1}
				}
			}
		} else {
			vk.Assume(!near[i])
		}
	}
	if w > 2 || h > 2 || ss == 0 || ss == 3 {
		vk.Assume(!near[0] && !near[1] && !near[2])
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			s.RefFrames[r+i][c+j] = s.RefFrame
		}
	}
	mask := 15
	if sh.Use128x128SuperBlock {
		mask = 31
	}
	for p := 0; p < 3; p++ {
		br, bc := r&mask, c&mask
		if p > 0 {
			br, bc = br>>subY, bc>>subX
		}
		for i := 0; i < 35; i++ {
			s.BlockDecoded[p][br][i] = vk.BoolAt([]string{"up0", "up1", "up2"}[p], i)
			s.BlockDecoded[p][i][bc] = vk.BoolAt([]string{"left0", "left1", "left2"}[p], i)
		}
	}
	var got []pEv
	intra := 0
	VerifHook_predictIntra = func(t *TileGroup, plane, x, y int, left, above, right, below bool, mode, lw, lh int, s *state.State, sh sequenceheader.SequenceHeader) {
		sx, sy := 0, 0
		wantL, wantU := s.AvailL, s.AvailU
		if plane > 0 {
			sx, sy = subX, subY
			wantL, wantU = s.AvailLChroma, s.AvailUChroma
		}
		pw, ph := w*4>>sx, h*4>>sy
		if pw < 4 {
			pw = 4
		}
		if ph < 4 {
			ph = 4
		}
		vk.Assert(kind == 2 && plane == intra, "interintra blocks are predicted once in each plane")
		intra++
		vk.Assert(x == c>>sx*4 && y == r>>sy*4 && 1<<lw == pw && 1<<lh == ph, "the position of an intra prediction")
		vk.Assert(left == wantL && above == wantU, "the neighbours of an intra prediction")
		br, bc := (r&mask)>>sy, (c&mask)>>sx
		vk.Assert(right == s.BlockDecoded[plane][br][bc+pw/4+1] && below == s.BlockDecoded[plane][br+ph/4+1][bc], "the far neighbours of an intra prediction")
		vk.Assert(mode == vk.Ite(t.InterIntraMode == 0, 0, vk.Ite(t.InterIntraMode == 1, 1, vk.Ite(t.InterIntraMode == 2, 2, 9))), "the mode of an intra prediction")
		for _, e := range got {
			vk.Assert(e.plane < plane, "the intra prediction comes first")
		}
	}
	VerifHook_predictInter = func(t *TileGroup, plane, x, y, pw, ph, row, col int, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		got = append(got, pEv{plane, x, y, pw, ph, row, col})
	}
	t.computePrediction(&s, sh, uh)
	i := 0
	planes := 1
	if t.HasChroma {
		planes = 3
	}
	if kind == 2 {
		vk.Assert(intra == planes, "every plane is predicted")
	}
	for p := 0; p < planes && kind > 0; p++ {
		sx, sy := 0, 0
		if p > 0 {
			sx, sy = subX, subY
		}
		x, y := c>>sx*4, r>>sy*4
		// a chroma block covers several blocks where these are narrow; each
		// part follows its own block unless one of them is intra
		var rows, cols = []int{r}, []int{c}
		someIntra := false
		if sy == 1 && h == 1 {
			rows = []int{r - 1, r}
		}
		if sx == 1 && w == 1 {
			cols = []int{c - 1, c}
		}
		for _, a := range rows {
			for _, b := range cols {
				someIntra = someIntra || s.RefFrames[a][b][0] == 0
			}
		}
		ew, eh := w*4>>sx, h*4>>sy
		if someIntra {
			rows, cols = []int{r}, []int{c}
			if ew < 4 {
				ew = 4
			}
			if eh < 4 {
				eh = 4
			}
		}
		for a := range rows {
			for b := range cols {
				vk.Assert(i < len(got) && got[i] == pEv{p, x + b*ew, y + a*eh, ew, eh, rows[a], cols[b]}, "each part is predicted from the motion of its block")
				i++
			}
		}
	}
	vk.Assert(i == len(got), "nothing else is predicted")
	vk.Reach("end")
}
