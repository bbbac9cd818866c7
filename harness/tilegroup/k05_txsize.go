package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

// splitTx halves the longer side, or both of a square.
func splitTx(tx int) int {
	w, h := txW[tx], txH[tx]
	if w >= h && w > 4 {
		w /= 2
		if w*2 == h && h > 4 {
			h /= 2
		}
	}
	if txH[tx] >= txW[tx] && txH[tx] > 4 {
		h = txH[tx] / 2
	}
	return txOf(w, h)
}

var specTree map[int]int

func txTreeSpec(x *kBlk, row, col, tx, depth int) int {
	if row >= x.s.MiRows || col >= x.s.MiCols {
		return -1
	}
	w, h := txW[tx]/4, txH[tx]/4
	if tx != 0 && depth < 2 {
		if none(2) == 1 {
			sub := splitTx(tx)
			last := -1
			for i := 0; i < h; i += txH[sub] / 4 {
				for j := 0; j < w; j += txW[sub] / 4 {
					if l := txTreeSpec(x, row+i, col+j, sub, depth+1); l >= 0 {
						last = l
					}
				}
			}
			return last
		}
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			x.t.InterTxSizes[row+i][col+j] = tx
		}
	}
	return tx
}

func txBlock(x *kBlk, sizeLo, sizeHi int) {
	intraBlock(x, sizeLo, sizeHi)
	x.t.Lossless = vk.Bool("lossless")
	x.t.Skip = vk.Int("skip", 0, 1)
	x.t.IsInter = vk.Int("inter", 0, 1)
	x.u.TxMode = vk.Int("txmode", 1, 2)
	x.s.MiSizes[0][1] = vk.Int("sizeU", 0, 21)
	x.s.MiSizes[1][0] = vk.Int("sizeL", 0, 21)
	x.t.InterTxSizes[0][1] = vk.Int("txU", 0, 18)
	x.t.InterTxSizes[1][0] = vk.Int("txL", 0, 18)
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			x.t.IsInters[i][j] = vk.IntAt("inters", i*2+j, 0, 1)
		}
	}
}

// txCheck compares the transform sizes of the block with the reference.
func txCheck(x *kBlk) {
	spec := *x
	x.t.readBlockTxSize(&x.b, &x.s, x.u)
	s := &spec
	size := spec.s.MiSize
	w, h := specW4[size], specH4[size]
	// the largest transform
	max := txOf(vkspec.Clip3(4, 64, 4*w), vkspec.Clip3(4, 64, 4*h))
	tx := max
	if s.u.TxMode == 2 && size > 0 && s.t.IsInter == 1 && s.t.Skip == 0 && !s.t.Lossless {
		for i := 0; i < h; i += txH[max] / 4 {
			for j := 0; j < w; j += txW[max] / 4 {
				if l := txTreeSpec(s, 1+i, 1+j, max, 0); l >= 0 {
					tx = l
				}
			}
		}
		vk.Assert(x.t.InterTxSizes == s.t.InterTxSizes, "transform sizes of a tree")
	} else {
		if s.t.Lossless {
			tx = 0
		} else if size > 0 && s.u.TxMode == 2 && (s.t.Skip == 0 || s.t.IsInter == 0) {
			depth, d := 0, max
			for i := 0; i < 4; i++ {
				if d != 0 {
					depth++
					d = splitTx(d)
				}
			}
			aw, lh := 0, 0
			if s.s.AvailU {
				aw = txW[s.t.InterTxSizes[0][1]]
				if s.t.IsInters[0][1] == 1 {
					aw = 4 * specW4[s.s.MiSizes[0][1]]
				}
			}
			if s.s.AvailL {
				lh = txH[s.t.InterTxSizes[1][0]]
				if s.t.IsInters[1][0] == 1 {
					lh = 4 * specH4[s.s.MiSizes[1][0]]
				}
			}
			ctx := vk.Ite(aw >= txW[max], 1, 0) + vk.Ite(lh >= txH[max], 1, 0)
			id := []int{0, idTx8, idTx16, idTx32, idTx64}[depth]
			n := sym(id + ctx)
			for i := 0; i < 2; i++ {
				if i < n {
					tx = splitTx(tx)
				}
			}
		}
		for i := 0; i < 34; i++ {
			for j := 0; j < 34; j++ {
				want := s.t.InterTxSizes[i][j]
				if i >= 1 && i <= h && j >= 1 && j <= w {
					want = tx
				}
				vk.Assert(x.t.InterTxSizes[i][j] == want, "transform size of a position")
			}
		}
	}
	kEnd()
	vk.Assert(x.t.TxSize == tx, "transform size")
	vk.Reach("end")
}

func txGroup(size int) {
	var x kBlk
	txBlock(&x, size, size)
	vk.Assume(!(x.u.TxMode == 2 && x.t.IsInter == 1 && x.t.Skip == 0 && !x.t.Lossless))
	txCheck(&x)
}

func txTree(size, frame int) {
	var x kBlk
	txBlock(&x, size, size)
	x.s.MiRows, x.s.MiCols = 1+2*vk.Int("rows", 1, frame), 1+2*vk.Int("cols", 1, frame)
	x.s.AvailU, x.s.AvailL = false, false
	x.u.TxMode, x.t.IsInter, x.t.Skip, x.t.Lossless = 2, 1, 0, false
	txCheck(&x)
}

//verif:bounds blocks of 4x4: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block4x4() { txGroup(0) }

//verif:bounds blocks of 4x8: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block4x8() { txGroup(1) }

//verif:bounds blocks of 8x4: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block8x4() { txGroup(2) }

//verif:bounds blocks of 8x8: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block8x8() { txGroup(3) }

//verif:bounds blocks of 8x16: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block8x16() { txGroup(4) }

//verif:bounds blocks of 16x8: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block16x8() { txGroup(5) }

//verif:bounds blocks of 16x16: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block16x16() { txGroup(6) }

//verif:bounds blocks of 16x32: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block16x32() { txGroup(7) }

//verif:bounds blocks of 32x16: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block32x16() { txGroup(8) }

//verif:bounds blocks of 32x32: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block32x32() { txGroup(9) }

//verif:bounds blocks of 32x64: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block32x64() { txGroup(10) }

//verif:bounds blocks of 64x32: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block64x32() { txGroup(11) }

//verif:bounds blocks of 64x64: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block64x64() { txGroup(12) }

//verif:bounds blocks of 64x128: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block64x128() { txGroup(13) }

//verif:bounds blocks of 128x64: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block128x64() { txGroup(14) }

//verif:bounds blocks of 128x128: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block128x128() { txGroup(15) }

//verif:bounds blocks of 4x16: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block4x16() { txGroup(16) }

//verif:bounds blocks of 16x4: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block16x4() { txGroup(17) }

//verif:bounds blocks of 8x32: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block8x32() { txGroup(18) }

//verif:bounds blocks of 32x8: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block32x8() { txGroup(19) }

//verif:bounds blocks of 16x64: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block16x64() { txGroup(20) }

//verif:bounds blocks of 64x16: intra, skipped or lossless; every transform mode, neighbour and coded depth
func VerifK05_block64x16() { txGroup(21) }

//verif:bounds transform trees of 4x8 inter blocks; every visible part; every coded split
func VerifK05_tree4x8() { txTree(1, 4) }

//verif:bounds transform trees of 8x4 inter blocks; every visible part; every coded split
func VerifK05_tree8x4() { txTree(2, 4) }

//verif:bounds transform trees of 8x8 inter blocks; every visible part; every coded split
func VerifK05_tree8x8() { txTree(3, 4) }

//verif:bounds transform trees of 8x16 inter blocks; every visible part; every coded split
func VerifK05_tree8x16() { txTree(4, 4) }

//verif:bounds transform trees of 16x8 inter blocks; every visible part; every coded split
func VerifK05_tree16x8() { txTree(5, 4) }

//verif:bounds transform trees of 16x16 inter blocks; every visible part; every coded split
func VerifK05_tree16x16() { txTree(6, 4) }

//verif:bounds transform trees of 16x32 inter blocks; every visible part; every coded split
func VerifK05_tree16x32() { txTree(7, 4) }

//verif:bounds transform trees of 32x16 inter blocks; every visible part; every coded split
func VerifK05_tree32x16() { txTree(8, 4) }

//verif:bounds transform trees of 32x32 inter blocks; every visible part; every coded split
func VerifK05_tree32x32() { txTree(9, 4) }

//verif:bounds transform trees of 32x64 inter blocks; every visible part; every coded split
func VerifK05_tree32x64() { txTree(10, 8) }

//verif:bounds transform trees of 64x32 inter blocks; every visible part; every coded split
func VerifK05_tree64x32() { txTree(11, 8) }

//verif:bounds transform trees of 64x64 inter blocks; every visible part; every coded split
func VerifK05_tree64x64() { txTree(12, 8) }

//verif:bounds transform trees of 4x16 inter blocks; every visible part; every coded split
func VerifK05_tree4x16() { txTree(16, 4) }

//verif:bounds transform trees of 16x4 inter blocks; every visible part; every coded split
func VerifK05_tree16x4() { txTree(17, 4) }

//verif:bounds transform trees of 8x32 inter blocks; every visible part; every coded split
func VerifK05_tree8x32() { txTree(18, 4) }

//verif:bounds transform trees of 32x8 inter blocks; every visible part; every coded split
func VerifK05_tree32x8() { txTree(19, 4) }

//verif:bounds transform trees of 16x64 inter blocks; every visible part; every coded split
func VerifK05_tree16x64() { txTree(20, 8) }

//verif:bounds transform trees of 64x16 inter blocks; every visible part; every coded split
func VerifK05_tree64x16() { txTree(21, 8) }
