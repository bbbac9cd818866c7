package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

// The partition of a superblock is replaced by a recorder that leaves
// everything it could change changed.
//
//verif:hook internal/tilegroup decodePartition
//verif:hook internal/tilegroup readLr

//verif:bounds tiles of up to 3x3 superblocks of either size (up to 2x3 of 128x128) at any of 3 by 3 positions, cut at any 8 samples in 2 rows and columns; every setting of the delta flags
//verif:time 300
//verif:loop 5000
func VerifG02_tile() {
	s, uh, sh := &state.State{}, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}
	t := &TileGroup{}
	big := vk.SplitBool("big", vk.Bool("big"))
	sh.Use128x128SuperBlock = big
	sb := 16
	if big {
		sb = 32
	}
	sh.ColorConfig.NumPlanes = 1
	if !vk.SplitBool("mono", vk.Bool("mono")) {
		sh.ColorConfig.NumPlanes = 3
	}
	deltas := vk.Bool("deltas")
	uh.DeltaQPresent = deltas
	// Storage holds frames of 256 samples.
	most := 64 / sb
	r0 := vk.Split("row", vk.Int("row", 0, 3), 0, 3)
	c0 := vk.Split("col", vk.Int("col", 0, 3), 0, 3)
	rows := vk.Split("rows", vk.Int("rows", 1, 3), 1, 3)
	cols := vk.Split("cols", vk.Int("cols", 1, 3), 1, 3)
	vk.Assume(r0+rows <= most && c0+cols <= most)
	cutR := 2 * vk.Split("cutrows", vk.Int("cutrows", 0, 1), 0, 1) * (sb/2 - 1)
	cutC := 2 * vk.Split("cutcols", vk.Int("cutcols", 0, 1), 0, 1) * (sb/2 - 1)
	s.MiRowStart, s.MiRowEnd = r0*sb, (r0+rows)*sb-cutR
	s.MiColStart, s.MiColEnd = c0*sb, (c0+cols)*sb-cutC
	s.MiRows, s.MiCols = 64, 64
	for i := range s.DeltaLF {
		s.DeltaLF[i] = 5
	}
	for p := 0; p < 3; p++ {
		for i := 0; i < 2; i++ {
			t.RefSgrXqd[p][i] = 99
			for j := 0; j < 3; j++ {
				t.RefLrWiener[p][i][j] = 99
			}
		}
	}
	s.Cdef.CdefIdx = make([][]int, 64)
	for i := range s.Cdef.CdefIdx {
		s.Cdef.CdefIdx[i] = make([]int, 64)
	}
	n, lr := 0, 0
	vk.Pin(&n)
	vk.Pin(&lr)
	at := func() (int, int) { return s.MiRowStart + n/cols*sb, s.MiColStart + n%cols*sb }
	level := 12
	if big {
		level = 15
	}
	restored := false
	VerifHook_readLr = func(t *TileGroup, r, c, size int, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
		wr, wc := at()
		vk.Assert(r == wr && c == wc && size == level, "restoration units of the superblock")
		vk.Assert(!restored, "restoration units are read once")
		restored = true
		if n == 0 {
			for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
				for i := 0; i < 2; i++ {
					vk.Assert(t.RefSgrXqd[p][i] == [2]int{-32, 31}[i], "weights start from the middle")
					for j := 0; j < 3; j++ {
						vk.Assert(t.RefLrWiener[p][i][j] == [3]int{3, -7, 15}[j], "taps start from the middle")
						t.RefLrWiener[p][i][j] = 1
					}
					t.RefSgrXqd[p][i] = 1
				}
			}
		}
		vk.Assert(t.RefSgrXqd[0][0] == 1 && t.RefLrWiener[0][1][2] == 1, "references last for the tile")
	}
	VerifHook_decodePartition = func(t *TileGroup, r, c, size int, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		wr, wc := at()
		vk.Assert(n < rows*cols, "a superblock too many")
		vk.Assert(r == wr && c == wc && size == level, "superblocks in order")
		vk.Assert(restored, "restoration units come first")
		restored = false
		vk.Assert(s.ReadDeltas == deltas, "deltas are read once for each superblock")
		s.ReadDeltas = false
		for i := 0; i < sb; i += 16 {
			for j := 0; j < sb; j += 16 {
				vk.Assert(s.Cdef.CdefIdx[r+i][c+j] == -1, "no direction filter is chosen yet")
				s.Cdef.CdefIdx[r+i][c+j] = 3
			}
		}
		first, newRow := 0, n%cols == 0
		if n > 0 {
			first = 1
		}
		for i := 0; i < 4; i++ {
			vk.Assert(s.DeltaLF[i] == first, "filter deltas start at 0")
			s.DeltaLF[i] = 1
		}
		for p := 0; p < sh.ColorConfig.NumPlanes; p++ {
			for i := 0; i < sb; i += 15 {
				above, left := 0, 0
				if n >= cols {
					above = 2
				}
				if !newRow {
					left = 3
				}
				vk.Assert(t.AboveLevelContext[p][c+i] == above && t.AboveDcContext[p][c+i] == above, "contexts above start with the tile")
				vk.Assert(t.LeftLevelContext[p][r+i] == left && t.LeftDcContext[p][r+i] == left, "contexts to the left start with the row")
				vk.Assert(p > 0 || t.AboveSegPredContext[c+i] == above && t.LeftSegPredContext[r+i] == left, "contexts of the segment prediction")
			}
			for i := 0; i < sb; i++ {
				t.AboveLevelContext[p][c+i], t.AboveDcContext[p][c+i] = 2, 2
				t.LeftLevelContext[p][r+i], t.LeftDcContext[p][r+i] = 3, 3
				t.AboveSegPredContext[c+i], t.LeftSegPredContext[r+i] = 2, 3
			}
		}
		n++
	}
	ok := vk.Try(func() { t.decodeTile(&bitstream.BitStream{}, s, sh, uh) })
	vk.Assert(ok, "no failure")
	vk.Assert(n == rows*cols, "every superblock is decoded")
	vk.Reach("end")
}
