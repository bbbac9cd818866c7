package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:hook internal/tilegroup decodeBlock
//verif:hook internal/tilegroup decodePartition

type pEvent struct{ kind, r, c, size int }

var pN int
var pEv [8]pEvent

func pHooks() {
	pN = 0
	vk.Pin(&pN)
	VerifHook_decodeBlock = func(t *TileGroup, r, c, size int, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		vk.Assert(pN < 8, "too many parts")
		pEv[pN] = pEvent{0, r, c, size}
		pN++
	}
	VerifHook_decodePartition = func(t *TileGroup, r, c, size int, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
		vk.Assert(pN < 8, "too many parts")
		pEv[pN] = pEvent{1, r, c, size}
		pN++
	}
}

// sizeOf is the block size number of a width and height in 4-sample units.
func sizeOf(w, h int) int {
	r := -1
	for i := range specW4 {
		if specW4[i] == w && specH4[i] == h {
			r = i
		}
	}
	return r
}

// parts lists the blocks of a partition: position and size in quarters of
// the block's side.
var parts = [][][4]int{
	{{0, 0, 4, 4}},
	{{0, 0, 4, 2}, {2, 0, 4, 2}},
	{{0, 0, 2, 4}, {0, 2, 2, 4}},
	{{0, 0, 2, 2}, {0, 2, 2, 2}, {2, 0, 2, 2}, {2, 2, 2, 2}},
	{{0, 0, 2, 2}, {0, 2, 2, 2}, {2, 0, 4, 2}},
	{{0, 0, 4, 2}, {2, 0, 2, 2}, {2, 2, 2, 2}},
	{{0, 0, 2, 2}, {2, 0, 2, 2}, {0, 2, 2, 4}},
	{{0, 0, 2, 4}, {0, 2, 2, 2}, {2, 2, 2, 2}},
	{{0, 0, 4, 1}, {1, 0, 4, 1}, {2, 0, 4, 1}, {3, 0, 4, 1}},
	{{0, 0, 1, 4}, {0, 1, 1, 4}, {0, 2, 1, 4}, {0, 3, 1, 4}},
}

// partition decodes one square block of the given size with every partition.
func partition(level int) {
	var x kBlk
	kHooks()
	kTables(&x.s)
	pHooks()
	n4 := 1 << level
	size := sizeOf(n4, n4)
	r := n4 * vk.Split("r", vk.Int("r", 0, 1), 0, 1)
	c := n4 * vk.Split("c", vk.Int("c", 0, 1), 0, 1)
	half := vk.Int("halfrows", 1, 40)
	x.s.MiRows = 2 * half
	half = vk.Int("halfcols", 1, 40)
	x.s.MiCols = 2 * half
	x.s.MiRowStart, x.s.MiColStart = vk.Int("rowstart", 0, 1)*r, vk.Int("colstart", 0, 1)*c
	x.s.MiRowEnd, x.s.MiColEnd = x.s.MiRows, x.s.MiCols
	availU, availL := r > x.s.MiRowStart, c > x.s.MiColStart
	if r > 0 {
		x.s.MiSizes[r-1][c] = vk.Int("above", 0, 21)
	}
	if c > 0 {
		x.s.MiSizes[r][c-1] = vk.Int("left", 0, 21)
	}
	// arbitrary probabilities, for the derived tables
	syms := []int{0, 4, 10, 10, 10, 8}[level]
	tab := [][]int{}
	for i := 0; i < 4; i++ {
		w := vk.Ints([]string{"cdfa", "cdfb", "cdfc", "cdfd"}[i], syms+1, 0, 32768)
		tab = append(tab, w)
	}
	switch level {
	case 1:
		x.s.TilePartitionW8Cdf = tab
	case 2:
		x.s.TilePartitionW16Cdf = tab
	case 3:
		x.s.TilePartitionW32Cdf = tab
	case 4:
		x.s.TilePartitionW64Cdf = tab
	case 5:
		x.s.TilePartitionW128Cdf = tab
	}
	var got []int
	calls := 0
	vk.Pin(&calls)
	var val int
	symbol.VerifHook_ReadSymbol = func(cdf []int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
		calls++
		got = make([]int, len(cdf))
		for i := range got {
			got[i] = cdf[i]
		}
		val = vk.Int("partition", 0, 9)
		vk.Assume(val < len(cdf)-1)
		val = vk.Split("val", val, 0, 9)
		return val
	}
	x.t.VerifReal_decodePartition(r, c, size, &x.b, &x.s, x.sh, x.u)

	inside := vk.SplitBool("inside", r < x.s.MiRows && c < x.s.MiCols)
	if !inside {
		vk.Assert(pN == 0 && calls == 0, "nothing is coded outside the frame")
		return
	}
	hasRows := vk.SplitBool("hasRows", r+n4/2 < x.s.MiRows)
	hasCols := vk.SplitBool("hasCols", c+n4/2 < x.s.MiCols)
	ctx := 0
	if availU && specW4[x.s.MiSizes[vk.Ite(r > 0, r-1, 0)][c]] < n4 {
		ctx++
	}
	if availL && specH4[x.s.MiSizes[r][vk.Ite(c > 0, c-1, 0)]] < n4 {
		ctx += 2
	}
	p := 3
	w := make([]int, 11)
	for i := 0; i < syms; i++ {
		w[i] = vk.Ite(ctx < 2, vk.Ite(ctx == 0, tab[0][i], tab[1][i]), vk.Ite(ctx == 2, tab[2][i], tab[3][i]))
	}
	if hasRows || hasCols {
		vk.Assert(calls == 1, "a partition is coded")
		p = val
	} else {
		vk.Assert(calls == 0, "a block over both edges is split")
	}
	if hasRows && hasCols {
		vk.Assert(len(got) == syms+1, "alphabet of the partition")
		for i := range got {
			if i < syms {
				vk.Assert(got[i] == w[i], "table of the partition")
			}
		}
	} else if hasRows || hasCols {
		sum := 0
		list := []int{2, 3, 4, 6, 7, 9}
		if !hasCols {
			list = []int{1, 3, 4, 5, 6, 8}
		}
		if level == 5 {
			list = list[:5]
		}
		for _, i := range list {
			sum += w[i] - w[i-1]
		}
		vk.Assert(len(got) == 3 && got[1] == 32768 && got[2] == 0, "flag table")
		vk.Assert(got[0] == 32768-sum, "probability of a split at the frame edge")
		if val == 1 {
			p = 3
		} else if hasCols {
			p = 1
		} else {
			p = 2
		}
	}
	k := 0
	for i, q := range parts[p] {
		// parts that start outside the frame are not coded, except that the
		// children of a split decide for themselves
		if p == 1 && i == 1 && !hasRows || p == 2 && i == 1 && !hasCols {
			continue
		}
		if p == 8 && i == 3 && r+n4*3/4 >= x.s.MiRows || p == 9 && i == 3 && c+n4*3/4 >= x.s.MiCols {
			continue
		}
		kind := 0
		if p == 3 {
			kind = 1
		}
		if p == 3 && level == 1 {
			kind = pEv[vk.Ite(k < 8, k, 7)].kind // a 4x4 block and a 4x4 partition are the same
		}
		vk.Assert(k < pN, "a part is missing")
		vk.Assert(pEv[k] == pEvent{kind, r + q[0]*n4/4, c + q[1]*n4/4, sizeOf(q[2]*n4/4, q[3]*n4/4)}, "part of a partition")
		k++
	}
	vk.Assert(k == pN, "a part is decoded that is not there")
	vk.Reach("end")
}

//verif:bounds 8x8 blocks at 4 positions; frames of 2..80 rows and columns of 4 samples; every tile start; every neighbour size, probability table and partition
func VerifK03_size8() { partition(1) }

//verif:bounds 16x16 blocks at 4 positions; frames of 2..80 rows and columns of 4 samples; every tile start; every neighbour size, probability table and partition
func VerifK03_size16() { partition(2) }

//verif:bounds 32x32 blocks at 4 positions; frames of 2..80 rows and columns of 4 samples; every tile start; every neighbour size, probability table and partition
func VerifK03_size32() { partition(3) }

//verif:bounds 64x64 blocks at 4 positions; frames of 2..80 rows and columns of 4 samples; every tile start; every neighbour size, probability table and partition
func VerifK03_size64() { partition(4) }

//verif:bounds 128x128 blocks at 4 positions; frames of 2..80 rows and columns of 4 samples; every tile start; every neighbour size, probability table and partition
func VerifK03_size128() { partition(5) }
