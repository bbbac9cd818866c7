package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

// The symbol decoder and the literal reader are replaced by recorders: every
// read returns an arbitrary value of its alphabet and notes which table row
// (or how many bits) it was given.  The first entry of each table row is its
// identity.  Elements whose reading the repository has not implemented (it
// stops there) are arbitrary values too, with no table.
//
//verif:hook internal/symbol ReadSymbol
//verif:hook internal/literal L
//verif:hook internal/bitstream S

const (
	idYModeIntra = 1000 * (iota + 1)
	idYMode
	idUVNot
	idUVCfl
	idAngle
	idPart
	idSegId
	idSegPred
	idTx8
	idTx16
	idTx32
	idTx64
	idTxfmSplit
	idIsInter
	idSingleRef
	idNewMv
	idZeroMv
	idSkip
	idCflSign
	idCflAlpha
	idDeltaQ
	idDeltaLF
	idDeltaLFMulti
	idRestType
	idPalY
	idPalUV
	idMvJoint
	idMvClass
	idMvClass0Bit
	idMvFr
	idMvClass0Fr
	idMvClass0Hp
	idMvSign
	idMvBit
	idMvHp
	idPalColor
	idIntrabc
	idRefMv
	idFilterIntra
	idFilterMode
	idObmc
	idMotion
	idWiener
	idSgrproj
)

const idLit = 100000
const idNone = 200000

var kN, kAt int
var kIds, kVals [96]int

// kZero are rows whose symbols are 0 in a harness that studies others.
var kZero = map[int]bool{}

func kRead(id, n int) int {
	i := kN
	kIds[i] = id
	if kZero[id] {
		kVals[i] = 0
		kN++
		return 0
	}
	v := vk.IntAt("sym", i, 0, 255)
	vk.Assume(v < n)
	kVals[i] = v
	kN++
	return v
}

func kHooks() {
	kN, kAt = 0, 0
	vk.Pin(&kN)
	vk.Pin(&kAt)
	symbol.VerifHook_ReadSymbol = func(cdf []int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
		return kRead(cdf[0], len(cdf)-1)
	}
	literal.VerifHook_L = func(n int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
		return kRead(idLit+n, 1<<n)
	}
	bitstream.VerifHook_S = func(b *bitstream.BitStream) int {
		return kRead(idNone, 256)
	}
}

// none is an element without a reader, of n values.
func none(n int) int {
	v := sym(idNone)
	vk.Assume(v < n)
	return v
}

// sym is the reference reader: the next recorded read must be of row id.
func sym(id int) int {
	i := kAt
	vk.Assert(i < kN, "an element is missing")
	if i >= kN {
		return 0
	}
	vk.Assert(kIds[i] == id, "an element is read with another table or size")
	kAt++
	return kVals[i]
}

func lit(n int) int { return sym(idLit + n) }

func kEnd() {
	vk.Assert(kAt == kN, "an element is read that is not there")
}

func row(id, n int) []int {
	r := make([]int, n+1)
	r[0] = id
	return r
}

func rows(id, k, n int) [][]int {
	r := make([][]int, k)
	for i := range r {
		r[i] = row(id+i, n)
	}
	return r
}

func rows2(id, j, k, n int) [][][]int {
	r := make([][][]int, j)
	for i := range r {
		r[i] = rows(id+i*20, k, n)
	}
	return r
}

func kTables(s *state.State) {
	s.TileIntraFrameYModeCdf = rows2(idYModeIntra, 5, 5, 13)
	s.TileYModeCdf = rows(idYMode, 4, 13)
	s.TileUVModeCflNotAllowedCdf = rows(idUVNot, 13, 13)
	s.TileUVModeCflAllowedCdf = rows(idUVCfl, 13, 14)
	s.TileAngleDeltaCdf = rows(idAngle, 8, 7)
	s.TilePartitionW8Cdf = rows(idPart, 4, 4)
	s.TilePartitionW16Cdf = rows(idPart+100, 4, 10)
	s.TilePartitionW32Cdf = rows(idPart+200, 4, 10)
	s.TilePartitionW64Cdf = rows(idPart+300, 4, 10)
	s.TilePartitionW128Cdf = rows(idPart+400, 4, 8)
	s.TileSegmentIdCdf = rows(idSegId, 3, 8)
	s.TileSegmentIdPredictedCdf = rows(idSegPred, 3, 2)
	s.TileTx8x8Cdf = rows(idTx8, 3, 2)
	s.TileTx16x16Cdf = rows(idTx16, 3, 3)
	s.TileTx32x32Cdf = rows(idTx32, 3, 3)
	s.TileTx64x64Cdf = rows(idTx64, 3, 3)
	s.TileTxfmSplitCdf = rows(idTxfmSplit, 21, 2)
	s.TileIsInterCdf = rows(idIsInter, 4, 2)
	s.TileSingleRefCdf = rows2(idSingleRef, 3, 6, 2)
	s.TileNewMvCdf = rows(idNewMv, 6, 2)
	s.TileZeroMvCdf = rows(idZeroMv, 2, 2)
	s.TileSkipCdf = rows(idSkip, 3, 2)
	s.TileCflSignCdf = row(idCflSign, 8)
	s.TileCflAlphaCdf = rows(idCflAlpha, 6, 16)
	s.TileDeltaQCdf = row(idDeltaQ, 4)
	s.TileDeltaLFCdf = row(idDeltaLF, 4)
	for i := range s.TileDeltaLFMultiCdf {
		s.TileDeltaLFMultiCdf[i] = row(idDeltaLFMulti+i, 4)
	}
	s.TileRestorationTypeCdf = row(idRestType, 3)
	s.TilePaletteYModeCdf = rows2(idPalY, 7, 3, 2)
	s.TilePaletteUVModeCdf = rows(idPalUV, 2, 2)
	s.TileIntrabcCdf = row(idIntrabc, 2)
	s.TileRefMvCdf = rows(idRefMv, 6, 2)
	s.TileFilterIntraCdf = rows(idFilterIntra, 22, 2)
	s.TileFilterIntraModeCdf = row(idFilterMode, 5)
	s.TileUseObmcCdf = rows(idObmc, 22, 2)
	s.TileMotionModeCdf = rows(idMotion, 22, 3)
	s.TileUseWienerCdf = row(idWiener, 2)
	s.TileUseSgrprojCdf = row(idSgrproj, 2)
	for i := 0; i < 2; i++ {
		s.TileMvJointCdf[i] = row(idMvJoint+i, 4)
		s.TileMvClassCdf[i] = rows(idMvClass+20*i, 2, 11)
		s.TileMvFrCdf[i] = rows(idMvFr+20*i, 2, 4)
		s.TileMvClass0FrCdf[i] = [][][]int{rows(idMvClass0Fr+20*i, 2, 4), rows(idMvClass0Fr+20*i+2, 2, 4)}
		for j := 0; j < 2; j++ {
			s.TileMvClass0BitCdf[i][j] = row(idMvClass0Bit+20*i+j, 2)
			s.TileMvClass0HpCdf[i][j] = row(idMvClass0Hp+20*i+j, 2)
			s.TileMvSignCdf[i][j] = row(idMvSign+20*i+j, 2)
			s.TileMvBitCdf[i][j] = rows(idMvBit+40*i+20*j, 10, 2)
			s.TileMvHpCdf[i][j] = row(idMvHp+20*i+j, 2)
		}
	}
}
