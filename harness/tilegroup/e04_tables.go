// Code generated by tools/cdfgen.py; DO NOT EDIT.

package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/vk"
)

func table1() []int { return make([]int, 3) }

func table2() [][]int { return [][]int{make([]int, 3), make([]int, 4)} }

func table3() [][][]int { return [][][]int{table2(), table2()} }

func table4() [][][][]int { return [][][][]int{table3()} }

func counters1(c []int) { c[len(c)-1] = 0 }

func counters2(c [][]int) {
	for i := range c {
		counters1(c[i])
	}
}

func counters3(c [][][]int) {
	for i := range c {
		counters2(c[i])
	}
}

func counters4(c [][][][]int) {
	for i := range c {
		counters3(c[i])
	}
}

// fill gives every table small arbitrary contents.
func fill(s *state.State, name string) {
	s.TxbSkipCdf = table3()
	vk.Fill(name+"TxbSkipCdf", &s.TxbSkipCdf, 0, 1<<15)
	s.EobPt16Cdf = table3()
	vk.Fill(name+"EobPt16Cdf", &s.EobPt16Cdf, 0, 1<<15)
	s.EobPt32Cdf = table3()
	vk.Fill(name+"EobPt32Cdf", &s.EobPt32Cdf, 0, 1<<15)
	s.EobPt64Cdf = table3()
	vk.Fill(name+"EobPt64Cdf", &s.EobPt64Cdf, 0, 1<<15)
	s.EobPt128Cdf = table3()
	vk.Fill(name+"EobPt128Cdf", &s.EobPt128Cdf, 0, 1<<15)
	s.EobPt256Cdf = table3()
	vk.Fill(name+"EobPt256Cdf", &s.EobPt256Cdf, 0, 1<<15)
	s.EobPt512Cdf = table2()
	vk.Fill(name+"EobPt512Cdf", &s.EobPt512Cdf, 0, 1<<15)
	s.EobPt1024Cdf = table2()
	vk.Fill(name+"EobPt1024Cdf", &s.EobPt1024Cdf, 0, 1<<15)
	s.EobExtraCdf = table4()
	vk.Fill(name+"EobExtraCdf", &s.EobExtraCdf, 0, 1<<15)
	s.DcSignCdf = table3()
	vk.Fill(name+"DcSignCdf", &s.DcSignCdf, 0, 1<<15)
	s.CoeffBaseEobCdf = table4()
	vk.Fill(name+"CoeffBaseEobCdf", &s.CoeffBaseEobCdf, 0, 1<<15)
	s.CoeffBaseCdf = table4()
	vk.Fill(name+"CoeffBaseCdf", &s.CoeffBaseCdf, 0, 1<<15)
	s.CoeffBrCdf = table4()
	vk.Fill(name+"CoeffBrCdf", &s.CoeffBrCdf, 0, 1<<15)
	s.IntraFrameYModeCdf = table3()
	vk.Fill(name+"IntraFrameYModeCdf", &s.IntraFrameYModeCdf, 0, 1<<15)
	s.YModeCdf = table2()
	vk.Fill(name+"YModeCdf", &s.YModeCdf, 0, 1<<15)
	s.UVModeCflNotAllowedCdf = table2()
	vk.Fill(name+"UVModeCflNotAllowedCdf", &s.UVModeCflNotAllowedCdf, 0, 1<<15)
	s.UVModeCflAllowedCdf = table2()
	vk.Fill(name+"UVModeCflAllowedCdf", &s.UVModeCflAllowedCdf, 0, 1<<15)
	s.AngleDeltaCdf = table2()
	vk.Fill(name+"AngleDeltaCdf", &s.AngleDeltaCdf, 0, 1<<15)
	s.IntrabcCdf = table1()
	vk.Fill(name+"IntrabcCdf", &s.IntrabcCdf, 0, 1<<15)
	s.PartitionW8Cdf = table2()
	vk.Fill(name+"PartitionW8Cdf", &s.PartitionW8Cdf, 0, 1<<15)
	s.PartitionW16Cdf = table2()
	vk.Fill(name+"PartitionW16Cdf", &s.PartitionW16Cdf, 0, 1<<15)
	s.PartitionW32Cdf = table2()
	vk.Fill(name+"PartitionW32Cdf", &s.PartitionW32Cdf, 0, 1<<15)
	s.PartitionW64Cdf = table2()
	vk.Fill(name+"PartitionW64Cdf", &s.PartitionW64Cdf, 0, 1<<15)
	s.PartitionW128Cdf = table2()
	vk.Fill(name+"PartitionW128Cdf", &s.PartitionW128Cdf, 0, 1<<15)
	s.SegmentIdCdf = table2()
	vk.Fill(name+"SegmentIdCdf", &s.SegmentIdCdf, 0, 1<<15)
	s.SegmentIdPredictedCdf = table2()
	vk.Fill(name+"SegmentIdPredictedCdf", &s.SegmentIdPredictedCdf, 0, 1<<15)
	s.Tx8x8Cdf = table2()
	vk.Fill(name+"Tx8x8Cdf", &s.Tx8x8Cdf, 0, 1<<15)
	s.Tx16x16Cdf = table2()
	vk.Fill(name+"Tx16x16Cdf", &s.Tx16x16Cdf, 0, 1<<15)
	s.Tx32x32Cdf = table2()
	vk.Fill(name+"Tx32x32Cdf", &s.Tx32x32Cdf, 0, 1<<15)
	s.Tx64x64Cdf = table2()
	vk.Fill(name+"Tx64x64Cdf", &s.Tx64x64Cdf, 0, 1<<15)
	s.TxfmSplitCdf = table2()
	vk.Fill(name+"TxfmSplitCdf", &s.TxfmSplitCdf, 0, 1<<15)
	s.FilterIntraModeCdf = table1()
	vk.Fill(name+"FilterIntraModeCdf", &s.FilterIntraModeCdf, 0, 1<<15)
	s.FilterIntraCdf = table2()
	vk.Fill(name+"FilterIntraCdf", &s.FilterIntraCdf, 0, 1<<15)
	s.InterpFilterCdf = table2()
	vk.Fill(name+"InterpFilterCdf", &s.InterpFilterCdf, 0, 1<<15)
	s.MotionModeCdf = table2()
	vk.Fill(name+"MotionModeCdf", &s.MotionModeCdf, 0, 1<<15)
	s.NewMvCdf = table2()
	vk.Fill(name+"NewMvCdf", &s.NewMvCdf, 0, 1<<15)
	s.ZeroMvCdf = table2()
	vk.Fill(name+"ZeroMvCdf", &s.ZeroMvCdf, 0, 1<<15)
	s.RefMvCdf = table2()
	vk.Fill(name+"RefMvCdf", &s.RefMvCdf, 0, 1<<15)
	s.CompoundModeCdf = table2()
	vk.Fill(name+"CompoundModeCdf", &s.CompoundModeCdf, 0, 1<<15)
	s.DrlModeCdf = table2()
	vk.Fill(name+"DrlModeCdf", &s.DrlModeCdf, 0, 1<<15)
	s.IsInterCdf = table2()
	vk.Fill(name+"IsInterCdf", &s.IsInterCdf, 0, 1<<15)
	s.CompModeCdf = table2()
	vk.Fill(name+"CompModeCdf", &s.CompModeCdf, 0, 1<<15)
	s.SkipModeCdf = table2()
	vk.Fill(name+"SkipModeCdf", &s.SkipModeCdf, 0, 1<<15)
	s.SkipCdf = table2()
	vk.Fill(name+"SkipCdf", &s.SkipCdf, 0, 1<<15)
	s.CompRefCdf = table3()
	vk.Fill(name+"CompRefCdf", &s.CompRefCdf, 0, 1<<15)
	s.CompBwdRefCdf = table3()
	vk.Fill(name+"CompBwdRefCdf", &s.CompBwdRefCdf, 0, 1<<15)
	s.SingleRefCdf = table3()
	vk.Fill(name+"SingleRefCdf", &s.SingleRefCdf, 0, 1<<15)
	s.MvJointCdf[0] = table1()
	s.MvJointCdf[1] = table1()
	vk.Fill(name+"MvJointCdf", &s.MvJointCdf, 0, 1<<15)
	s.MvClassCdf[0] = table2()
	s.MvClassCdf[1] = table2()
	vk.Fill(name+"MvClassCdf", &s.MvClassCdf, 0, 1<<15)
	s.MvClass0BitCdf[0][0] = table1()
	s.MvClass0BitCdf[0][1] = table1()
	s.MvClass0BitCdf[1][0] = table1()
	s.MvClass0BitCdf[1][1] = table1()
	vk.Fill(name+"MvClass0BitCdf", &s.MvClass0BitCdf, 0, 1<<15)
	s.MvFrCdf[0] = table2()
	s.MvFrCdf[1] = table2()
	vk.Fill(name+"MvFrCdf", &s.MvFrCdf, 0, 1<<15)
	s.MvClass0FrCdf[0] = table3()
	s.MvClass0FrCdf[1] = table3()
	vk.Fill(name+"MvClass0FrCdf", &s.MvClass0FrCdf, 0, 1<<15)
	s.MvClass0HpCdf[0][0] = table1()
	s.MvClass0HpCdf[0][1] = table1()
	s.MvClass0HpCdf[1][0] = table1()
	s.MvClass0HpCdf[1][1] = table1()
	vk.Fill(name+"MvClass0HpCdf", &s.MvClass0HpCdf, 0, 1<<15)
	s.MvSignCdf[0][0] = table1()
	s.MvSignCdf[0][1] = table1()
	s.MvSignCdf[1][0] = table1()
	s.MvSignCdf[1][1] = table1()
	vk.Fill(name+"MvSignCdf", &s.MvSignCdf, 0, 1<<15)
	s.MvBitCdf[0][0] = table2()
	s.MvBitCdf[0][1] = table2()
	s.MvBitCdf[1][0] = table2()
	s.MvBitCdf[1][1] = table2()
	vk.Fill(name+"MvBitCdf", &s.MvBitCdf, 0, 1<<15)
	s.MvHpCdf[0][0] = table1()
	s.MvHpCdf[0][1] = table1()
	s.MvHpCdf[1][0] = table1()
	s.MvHpCdf[1][1] = table1()
	vk.Fill(name+"MvHpCdf", &s.MvHpCdf, 0, 1<<15)
	s.PaletteYModeCdf = table3()
	vk.Fill(name+"PaletteYModeCdf", &s.PaletteYModeCdf, 0, 1<<15)
	s.PaletteUVModeCdf = table2()
	vk.Fill(name+"PaletteUVModeCdf", &s.PaletteUVModeCdf, 0, 1<<15)
	s.PaletteUVSizeCdf = table2()
	vk.Fill(name+"PaletteUVSizeCdf", &s.PaletteUVSizeCdf, 0, 1<<15)
	s.PaletteSize2YColorCdf = table2()
	vk.Fill(name+"PaletteSize2YColorCdf", &s.PaletteSize2YColorCdf, 0, 1<<15)
	s.PaletteSize2UVColorCdf = table2()
	vk.Fill(name+"PaletteSize2UVColorCdf", &s.PaletteSize2UVColorCdf, 0, 1<<15)
	s.PaletteSize3YColorCdf = table2()
	vk.Fill(name+"PaletteSize3YColorCdf", &s.PaletteSize3YColorCdf, 0, 1<<15)
	s.PaletteSize3UVColorCdf = table2()
	vk.Fill(name+"PaletteSize3UVColorCdf", &s.PaletteSize3UVColorCdf, 0, 1<<15)
	s.PaletteSize4YColorCdf = table2()
	vk.Fill(name+"PaletteSize4YColorCdf", &s.PaletteSize4YColorCdf, 0, 1<<15)
	s.PaletteSize4UVColorCdf = table2()
	vk.Fill(name+"PaletteSize4UVColorCdf", &s.PaletteSize4UVColorCdf, 0, 1<<15)
	s.PaletteSize5YColorCdf = table2()
	vk.Fill(name+"PaletteSize5YColorCdf", &s.PaletteSize5YColorCdf, 0, 1<<15)
	s.PaletteSize5UVColorCdf = table2()
	vk.Fill(name+"PaletteSize5UVColorCdf", &s.PaletteSize5UVColorCdf, 0, 1<<15)
	s.PaletteSize6YColorCdf = table2()
	vk.Fill(name+"PaletteSize6YColorCdf", &s.PaletteSize6YColorCdf, 0, 1<<15)
	s.PaletteSize6UVColorCdf = table2()
	vk.Fill(name+"PaletteSize6UVColorCdf", &s.PaletteSize6UVColorCdf, 0, 1<<15)
	s.PaletteSize7YColorCdf = table2()
	vk.Fill(name+"PaletteSize7YColorCdf", &s.PaletteSize7YColorCdf, 0, 1<<15)
	s.PaletteSize7UVColorCdf = table2()
	vk.Fill(name+"PaletteSize7UVColorCdf", &s.PaletteSize7UVColorCdf, 0, 1<<15)
	s.PaletteSize8YColorCdf = table2()
	vk.Fill(name+"PaletteSize8YColorCdf", &s.PaletteSize8YColorCdf, 0, 1<<15)
	s.PaletteSize8UVColorCdf = table2()
	vk.Fill(name+"PaletteSize8UVColorCdf", &s.PaletteSize8UVColorCdf, 0, 1<<15)
	s.DeltaQCdf = table1()
	vk.Fill(name+"DeltaQCdf", &s.DeltaQCdf, 0, 1<<15)
	s.DeltaLFCdf = table1()
	vk.Fill(name+"DeltaLFCdf", &s.DeltaLFCdf, 0, 1<<15)
	s.DeltaLFMultiCdf[0] = table1()
	s.DeltaLFMultiCdf[1] = table1()
	s.DeltaLFMultiCdf[2] = table1()
	s.DeltaLFMultiCdf[3] = table1()
	vk.Fill(name+"DeltaLFMultiCdf", &s.DeltaLFMultiCdf, 0, 1<<15)
	s.IntraTxTypeSet1Cdf = table3()
	vk.Fill(name+"IntraTxTypeSet1Cdf", &s.IntraTxTypeSet1Cdf, 0, 1<<15)
	s.IntraTxTypeSet2Cdf = table3()
	vk.Fill(name+"IntraTxTypeSet2Cdf", &s.IntraTxTypeSet2Cdf, 0, 1<<15)
	s.InterTxTypeSet1Cdf = table2()
	vk.Fill(name+"InterTxTypeSet1Cdf", &s.InterTxTypeSet1Cdf, 0, 1<<15)
	s.InterTxTypeSet2Cdf = table1()
	vk.Fill(name+"InterTxTypeSet2Cdf", &s.InterTxTypeSet2Cdf, 0, 1<<15)
	s.InterTxTypeSet3Cdf = table2()
	vk.Fill(name+"InterTxTypeSet3Cdf", &s.InterTxTypeSet3Cdf, 0, 1<<15)
	s.UseObmcCdf = table2()
	vk.Fill(name+"UseObmcCdf", &s.UseObmcCdf, 0, 1<<15)
	s.InterIntraCdf = table2()
	vk.Fill(name+"InterIntraCdf", &s.InterIntraCdf, 0, 1<<15)
	s.CompRefTypeCdf = table2()
	vk.Fill(name+"CompRefTypeCdf", &s.CompRefTypeCdf, 0, 1<<15)
	s.CflSignCdf = table1()
	vk.Fill(name+"CflSignCdf", &s.CflSignCdf, 0, 1<<15)
	s.UniCompRefCdf = table3()
	vk.Fill(name+"UniCompRefCdf", &s.UniCompRefCdf, 0, 1<<15)
	s.WedgeInterIntraCdf = table2()
	vk.Fill(name+"WedgeInterIntraCdf", &s.WedgeInterIntraCdf, 0, 1<<15)
	s.CompGroupIdxCdf = table2()
	vk.Fill(name+"CompGroupIdxCdf", &s.CompGroupIdxCdf, 0, 1<<15)
	s.CompoundIdxCdf = table2()
	vk.Fill(name+"CompoundIdxCdf", &s.CompoundIdxCdf, 0, 1<<15)
	s.CompoundTypeCdf = table2()
	vk.Fill(name+"CompoundTypeCdf", &s.CompoundTypeCdf, 0, 1<<15)
	s.InterIntraModeCdf = table2()
	vk.Fill(name+"InterIntraModeCdf", &s.InterIntraModeCdf, 0, 1<<15)
	s.WedgeIndexCdf = table2()
	vk.Fill(name+"WedgeIndexCdf", &s.WedgeIndexCdf, 0, 1<<15)
	s.CflAlphaCdf = table2()
	vk.Fill(name+"CflAlphaCdf", &s.CflAlphaCdf, 0, 1<<15)
	s.UseWienerCdf = table1()
	vk.Fill(name+"UseWienerCdf", &s.UseWienerCdf, 0, 1<<15)
	s.UseSgrprojCdf = table1()
	vk.Fill(name+"UseSgrprojCdf", &s.UseSgrprojCdf, 0, 1<<15)
	s.RestorationTypeCdf = table1()
	vk.Fill(name+"RestorationTypeCdf", &s.RestorationTypeCdf, 0, 1<<15)
}

// fillTile gives every table small arbitrary contents.
func fillTile(s *state.State, name string) {
	s.TileTxbSkipCdf = table3()
	vk.Fill(name+"TxbSkipCdf", &s.TileTxbSkipCdf, 0, 1<<15)
	s.TileEobPt16Cdf = table3()
	vk.Fill(name+"EobPt16Cdf", &s.TileEobPt16Cdf, 0, 1<<15)
	s.TileEobPt32Cdf = table3()
	vk.Fill(name+"EobPt32Cdf", &s.TileEobPt32Cdf, 0, 1<<15)
	s.TileEobPt64Cdf = table3()
	vk.Fill(name+"EobPt64Cdf", &s.TileEobPt64Cdf, 0, 1<<15)
	s.TileEobPt128Cdf = table3()
	vk.Fill(name+"EobPt128Cdf", &s.TileEobPt128Cdf, 0, 1<<15)
	s.TileEobPt256Cdf = table3()
	vk.Fill(name+"EobPt256Cdf", &s.TileEobPt256Cdf, 0, 1<<15)
	s.TileEobPt512Cdf = table2()
	vk.Fill(name+"EobPt512Cdf", &s.TileEobPt512Cdf, 0, 1<<15)
	s.TileEobPt1024Cdf = table2()
	vk.Fill(name+"EobPt1024Cdf", &s.TileEobPt1024Cdf, 0, 1<<15)
	s.TileEobExtraCdf = table4()
	vk.Fill(name+"EobExtraCdf", &s.TileEobExtraCdf, 0, 1<<15)
	s.TileDcSignCdf = table3()
	vk.Fill(name+"DcSignCdf", &s.TileDcSignCdf, 0, 1<<15)
	s.TileCoeffBaseEobCdf = table4()
	vk.Fill(name+"CoeffBaseEobCdf", &s.TileCoeffBaseEobCdf, 0, 1<<15)
	s.TileCoeffBaseCdf = table4()
	vk.Fill(name+"CoeffBaseCdf", &s.TileCoeffBaseCdf, 0, 1<<15)
	s.TileCoeffBrCdf = table4()
	vk.Fill(name+"CoeffBrCdf", &s.TileCoeffBrCdf, 0, 1<<15)
	s.TileIntraFrameYModeCdf = table3()
	vk.Fill(name+"IntraFrameYModeCdf", &s.TileIntraFrameYModeCdf, 0, 1<<15)
	s.TileYModeCdf = table2()
	vk.Fill(name+"YModeCdf", &s.TileYModeCdf, 0, 1<<15)
	s.TileUVModeCflNotAllowedCdf = table2()
	vk.Fill(name+"UVModeCflNotAllowedCdf", &s.TileUVModeCflNotAllowedCdf, 0, 1<<15)
	s.TileUVModeCflAllowedCdf = table2()
	vk.Fill(name+"UVModeCflAllowedCdf", &s.TileUVModeCflAllowedCdf, 0, 1<<15)
	s.TileAngleDeltaCdf = table2()
	vk.Fill(name+"AngleDeltaCdf", &s.TileAngleDeltaCdf, 0, 1<<15)
	s.TileIntrabcCdf = table1()
	vk.Fill(name+"IntrabcCdf", &s.TileIntrabcCdf, 0, 1<<15)
	s.TilePartitionW8Cdf = table2()
	vk.Fill(name+"PartitionW8Cdf", &s.TilePartitionW8Cdf, 0, 1<<15)
	s.TilePartitionW16Cdf = table2()
	vk.Fill(name+"PartitionW16Cdf", &s.TilePartitionW16Cdf, 0, 1<<15)
	s.TilePartitionW32Cdf = table2()
	vk.Fill(name+"PartitionW32Cdf", &s.TilePartitionW32Cdf, 0, 1<<15)
	s.TilePartitionW64Cdf = table2()
	vk.Fill(name+"PartitionW64Cdf", &s.TilePartitionW64Cdf, 0, 1<<15)
	s.TilePartitionW128Cdf = table2()
	vk.Fill(name+"PartitionW128Cdf", &s.TilePartitionW128Cdf, 0, 1<<15)
	s.TileSegmentIdCdf = table2()
	vk.Fill(name+"SegmentIdCdf", &s.TileSegmentIdCdf, 0, 1<<15)
	s.TileSegmentIdPredictedCdf = table2()
	vk.Fill(name+"SegmentIdPredictedCdf", &s.TileSegmentIdPredictedCdf, 0, 1<<15)
	s.TileTx8x8Cdf = table2()
	vk.Fill(name+"Tx8x8Cdf", &s.TileTx8x8Cdf, 0, 1<<15)
	s.TileTx16x16Cdf = table2()
	vk.Fill(name+"Tx16x16Cdf", &s.TileTx16x16Cdf, 0, 1<<15)
	s.TileTx32x32Cdf = table2()
	vk.Fill(name+"Tx32x32Cdf", &s.TileTx32x32Cdf, 0, 1<<15)
	s.TileTx64x64Cdf = table2()
	vk.Fill(name+"Tx64x64Cdf", &s.TileTx64x64Cdf, 0, 1<<15)
	s.TileTxfmSplitCdf = table2()
	vk.Fill(name+"TxfmSplitCdf", &s.TileTxfmSplitCdf, 0, 1<<15)
	s.TileFilterIntraModeCdf = table1()
	vk.Fill(name+"FilterIntraModeCdf", &s.TileFilterIntraModeCdf, 0, 1<<15)
	s.TileFilterIntraCdf = table2()
	vk.Fill(name+"FilterIntraCdf", &s.TileFilterIntraCdf, 0, 1<<15)
	s.TileInterpFilterCdf = table2()
	vk.Fill(name+"InterpFilterCdf", &s.TileInterpFilterCdf, 0, 1<<15)
	s.TileMotionModeCdf = table2()
	vk.Fill(name+"MotionModeCdf", &s.TileMotionModeCdf, 0, 1<<15)
	s.TileNewMvCdf = table2()
	vk.Fill(name+"NewMvCdf", &s.TileNewMvCdf, 0, 1<<15)
	s.TileZeroMvCdf = table2()
	vk.Fill(name+"ZeroMvCdf", &s.TileZeroMvCdf, 0, 1<<15)
	s.TileRefMvCdf = table2()
	vk.Fill(name+"RefMvCdf", &s.TileRefMvCdf, 0, 1<<15)
	s.TileCompoundModeCdf = table2()
	vk.Fill(name+"CompoundModeCdf", &s.TileCompoundModeCdf, 0, 1<<15)
	s.TileDrlModeCdf = table2()
	vk.Fill(name+"DrlModeCdf", &s.TileDrlModeCdf, 0, 1<<15)
	s.TileIsInterCdf = table2()
	vk.Fill(name+"IsInterCdf", &s.TileIsInterCdf, 0, 1<<15)
	s.TileCompModeCdf = table2()
	vk.Fill(name+"CompModeCdf", &s.TileCompModeCdf, 0, 1<<15)
	s.TileSkipModeCdf = table2()
	vk.Fill(name+"SkipModeCdf", &s.TileSkipModeCdf, 0, 1<<15)
	s.TileSkipCdf = table2()
	vk.Fill(name+"SkipCdf", &s.TileSkipCdf, 0, 1<<15)
	s.TileCompRefCdf = table3()
	vk.Fill(name+"CompRefCdf", &s.TileCompRefCdf, 0, 1<<15)
	s.TileCompBwdRefCdf = table3()
	vk.Fill(name+"CompBwdRefCdf", &s.TileCompBwdRefCdf, 0, 1<<15)
	s.TileSingleRefCdf = table3()
	vk.Fill(name+"SingleRefCdf", &s.TileSingleRefCdf, 0, 1<<15)
	s.TileMvJointCdf[0] = table1()
	s.TileMvJointCdf[1] = table1()
	vk.Fill(name+"MvJointCdf", &s.TileMvJointCdf, 0, 1<<15)
	s.TileMvClassCdf[0] = table2()
	s.TileMvClassCdf[1] = table2()
	vk.Fill(name+"MvClassCdf", &s.TileMvClassCdf, 0, 1<<15)
	s.TileMvClass0BitCdf[0][0] = table1()
	s.TileMvClass0BitCdf[0][1] = table1()
	s.TileMvClass0BitCdf[1][0] = table1()
	s.TileMvClass0BitCdf[1][1] = table1()
	vk.Fill(name+"MvClass0BitCdf", &s.TileMvClass0BitCdf, 0, 1<<15)
	s.TileMvFrCdf[0] = table2()
	s.TileMvFrCdf[1] = table2()
	vk.Fill(name+"MvFrCdf", &s.TileMvFrCdf, 0, 1<<15)
	s.TileMvClass0FrCdf[0] = table3()
	s.TileMvClass0FrCdf[1] = table3()
	vk.Fill(name+"MvClass0FrCdf", &s.TileMvClass0FrCdf, 0, 1<<15)
	s.TileMvClass0HpCdf[0][0] = table1()
	s.TileMvClass0HpCdf[0][1] = table1()
	s.TileMvClass0HpCdf[1][0] = table1()
	s.TileMvClass0HpCdf[1][1] = table1()
	vk.Fill(name+"MvClass0HpCdf", &s.TileMvClass0HpCdf, 0, 1<<15)
	s.TileMvSignCdf[0][0] = table1()
	s.TileMvSignCdf[0][1] = table1()
	s.TileMvSignCdf[1][0] = table1()
	s.TileMvSignCdf[1][1] = table1()
	vk.Fill(name+"MvSignCdf", &s.TileMvSignCdf, 0, 1<<15)
	s.TileMvBitCdf[0][0] = table2()
	s.TileMvBitCdf[0][1] = table2()
	s.TileMvBitCdf[1][0] = table2()
	s.TileMvBitCdf[1][1] = table2()
	vk.Fill(name+"MvBitCdf", &s.TileMvBitCdf, 0, 1<<15)
	s.TileMvHpCdf[0][0] = table1()
	s.TileMvHpCdf[0][1] = table1()
	s.TileMvHpCdf[1][0] = table1()
	s.TileMvHpCdf[1][1] = table1()
	vk.Fill(name+"MvHpCdf", &s.TileMvHpCdf, 0, 1<<15)
	s.TilePaletteYModeCdf = table3()
	vk.Fill(name+"PaletteYModeCdf", &s.TilePaletteYModeCdf, 0, 1<<15)
	s.TilePaletteUVModeCdf = table2()
	vk.Fill(name+"PaletteUVModeCdf", &s.TilePaletteUVModeCdf, 0, 1<<15)
	s.TilePaletteUVSizeCdf = table2()
	vk.Fill(name+"PaletteUVSizeCdf", &s.TilePaletteUVSizeCdf, 0, 1<<15)
	s.TilePaletteSize2YColorCdf = table2()
	vk.Fill(name+"PaletteSize2YColorCdf", &s.TilePaletteSize2YColorCdf, 0, 1<<15)
	s.TilePaletteSize2UVColorCdf = table2()
	vk.Fill(name+"PaletteSize2UVColorCdf", &s.TilePaletteSize2UVColorCdf, 0, 1<<15)
	s.TilePaletteSize3YColorCdf = table2()
	vk.Fill(name+"PaletteSize3YColorCdf", &s.TilePaletteSize3YColorCdf, 0, 1<<15)
	s.TilePaletteSize3UVColorCdf = table2()
	vk.Fill(name+"PaletteSize3UVColorCdf", &s.TilePaletteSize3UVColorCdf, 0, 1<<15)
	s.TilePaletteSize4YColorCdf = table2()
	vk.Fill(name+"PaletteSize4YColorCdf", &s.TilePaletteSize4YColorCdf, 0, 1<<15)
	s.TilePaletteSize4UVColorCdf = table2()
	vk.Fill(name+"PaletteSize4UVColorCdf", &s.TilePaletteSize4UVColorCdf, 0, 1<<15)
	s.TilePaletteSize5YColorCdf = table2()
	vk.Fill(name+"PaletteSize5YColorCdf", &s.TilePaletteSize5YColorCdf, 0, 1<<15)
	s.TilePaletteSize5UVColorCdf = table2()
	vk.Fill(name+"PaletteSize5UVColorCdf", &s.TilePaletteSize5UVColorCdf, 0, 1<<15)
	s.TilePaletteSize6YColorCdf = table2()
	vk.Fill(name+"PaletteSize6YColorCdf", &s.TilePaletteSize6YColorCdf, 0, 1<<15)
	s.TilePaletteSize6UVColorCdf = table2()
	vk.Fill(name+"PaletteSize6UVColorCdf", &s.TilePaletteSize6UVColorCdf, 0, 1<<15)
	s.TilePaletteSize7YColorCdf = table2()
	vk.Fill(name+"PaletteSize7YColorCdf", &s.TilePaletteSize7YColorCdf, 0, 1<<15)
	s.TilePaletteSize7UVColorCdf = table2()
	vk.Fill(name+"PaletteSize7UVColorCdf", &s.TilePaletteSize7UVColorCdf, 0, 1<<15)
	s.TilePaletteSize8YColorCdf = table2()
	vk.Fill(name+"PaletteSize8YColorCdf", &s.TilePaletteSize8YColorCdf, 0, 1<<15)
	s.TilePaletteSize8UVColorCdf = table2()
	vk.Fill(name+"PaletteSize8UVColorCdf", &s.TilePaletteSize8UVColorCdf, 0, 1<<15)
	s.TileDeltaQCdf = table1()
	vk.Fill(name+"DeltaQCdf", &s.TileDeltaQCdf, 0, 1<<15)
	s.TileDeltaLFCdf = table1()
	vk.Fill(name+"DeltaLFCdf", &s.TileDeltaLFCdf, 0, 1<<15)
	s.TileDeltaLFMultiCdf[0] = table1()
	s.TileDeltaLFMultiCdf[1] = table1()
	s.TileDeltaLFMultiCdf[2] = table1()
	s.TileDeltaLFMultiCdf[3] = table1()
	vk.Fill(name+"DeltaLFMultiCdf", &s.TileDeltaLFMultiCdf, 0, 1<<15)
	s.TileIntraTxTypeSet1Cdf = table3()
	vk.Fill(name+"IntraTxTypeSet1Cdf", &s.TileIntraTxTypeSet1Cdf, 0, 1<<15)
	s.TileIntraTxTypeSet2Cdf = table3()
	vk.Fill(name+"IntraTxTypeSet2Cdf", &s.TileIntraTxTypeSet2Cdf, 0, 1<<15)
	s.TileInterTxTypeSet1Cdf = table2()
	vk.Fill(name+"InterTxTypeSet1Cdf", &s.TileInterTxTypeSet1Cdf, 0, 1<<15)
	s.TileInterTxTypeSet2Cdf = table1()
	vk.Fill(name+"InterTxTypeSet2Cdf", &s.TileInterTxTypeSet2Cdf, 0, 1<<15)
	s.TileInterTxTypeSet3Cdf = table2()
	vk.Fill(name+"InterTxTypeSet3Cdf", &s.TileInterTxTypeSet3Cdf, 0, 1<<15)
	s.TileUseObmcCdf = table2()
	vk.Fill(name+"UseObmcCdf", &s.TileUseObmcCdf, 0, 1<<15)
	s.TileInterIntraCdf = table2()
	vk.Fill(name+"InterIntraCdf", &s.TileInterIntraCdf, 0, 1<<15)
	s.TileCompRefTypeCdf = table2()
	vk.Fill(name+"CompRefTypeCdf", &s.TileCompRefTypeCdf, 0, 1<<15)
	s.TileCflSignCdf = table1()
	vk.Fill(name+"CflSignCdf", &s.TileCflSignCdf, 0, 1<<15)
	s.TileUniCompRefCdf = table3()
	vk.Fill(name+"UniCompRefCdf", &s.TileUniCompRefCdf, 0, 1<<15)
	s.TileWedgeInterIntraCdf = table2()
	vk.Fill(name+"WedgeInterIntraCdf", &s.TileWedgeInterIntraCdf, 0, 1<<15)
	s.TileCompGroupIdxCdf = table2()
	vk.Fill(name+"CompGroupIdxCdf", &s.TileCompGroupIdxCdf, 0, 1<<15)
	s.TileCompoundIdxCdf = table2()
	vk.Fill(name+"CompoundIdxCdf", &s.TileCompoundIdxCdf, 0, 1<<15)
	s.TileCompoundTypeCdf = table2()
	vk.Fill(name+"CompoundTypeCdf", &s.TileCompoundTypeCdf, 0, 1<<15)
	s.TileInterIntraModeCdf = table2()
	vk.Fill(name+"InterIntraModeCdf", &s.TileInterIntraModeCdf, 0, 1<<15)
	s.TileWedgeIndexCdf = table2()
	vk.Fill(name+"WedgeIndexCdf", &s.TileWedgeIndexCdf, 0, 1<<15)
	s.TileCflAlphaCdf = table2()
	vk.Fill(name+"CflAlphaCdf", &s.TileCflAlphaCdf, 0, 1<<15)
	s.TileUseWienerCdf = table1()
	vk.Fill(name+"UseWienerCdf", &s.TileUseWienerCdf, 0, 1<<15)
	s.TileUseSgrprojCdf = table1()
	vk.Fill(name+"UseSgrprojCdf", &s.TileUseSgrprojCdf, 0, 1<<15)
	s.TileRestorationTypeCdf = table1()
	vk.Fill(name+"RestorationTypeCdf", &s.TileRestorationTypeCdf, 0, 1<<15)
}

// fillSaved gives every table small arbitrary contents.
func fillSaved(s *state.State, name string) {
	s.SavedTxbSkipCdf = table3()
	vk.Fill(name+"TxbSkipCdf", &s.SavedTxbSkipCdf, 0, 1<<15)
	s.SavedEobPt16Cdf = table3()
	vk.Fill(name+"EobPt16Cdf", &s.SavedEobPt16Cdf, 0, 1<<15)
	s.SavedEobPt32Cdf = table3()
	vk.Fill(name+"EobPt32Cdf", &s.SavedEobPt32Cdf, 0, 1<<15)
	s.SavedEobPt64Cdf = table3()
	vk.Fill(name+"EobPt64Cdf", &s.SavedEobPt64Cdf, 0, 1<<15)
	s.SavedEobPt128Cdf = table3()
	vk.Fill(name+"EobPt128Cdf", &s.SavedEobPt128Cdf, 0, 1<<15)
	s.SavedEobPt256Cdf = table3()
	vk.Fill(name+"EobPt256Cdf", &s.SavedEobPt256Cdf, 0, 1<<15)
	s.SavedEobPt512Cdf = table2()
	vk.Fill(name+"EobPt512Cdf", &s.SavedEobPt512Cdf, 0, 1<<15)
	s.SavedEobPt1024Cdf = table2()
	vk.Fill(name+"EobPt1024Cdf", &s.SavedEobPt1024Cdf, 0, 1<<15)
	s.SavedEobExtraCdf = table4()
	vk.Fill(name+"EobExtraCdf", &s.SavedEobExtraCdf, 0, 1<<15)
	s.SavedDcSignCdf = table3()
	vk.Fill(name+"DcSignCdf", &s.SavedDcSignCdf, 0, 1<<15)
	s.SavedCoeffBaseEobCdf = table4()
	vk.Fill(name+"CoeffBaseEobCdf", &s.SavedCoeffBaseEobCdf, 0, 1<<15)
	s.SavedCoeffBaseCdf = table4()
	vk.Fill(name+"CoeffBaseCdf", &s.SavedCoeffBaseCdf, 0, 1<<15)
	s.SavedCoeffBrCdf = table4()
	vk.Fill(name+"CoeffBrCdf", &s.SavedCoeffBrCdf, 0, 1<<15)
	s.SavedIntraFrameYModeCdf = table3()
	vk.Fill(name+"IntraFrameYModeCdf", &s.SavedIntraFrameYModeCdf, 0, 1<<15)
	s.SavedYModeCdf = table2()
	vk.Fill(name+"YModeCdf", &s.SavedYModeCdf, 0, 1<<15)
	s.SavedUVModeCflNotAllowedCdf = table2()
	vk.Fill(name+"UVModeCflNotAllowedCdf", &s.SavedUVModeCflNotAllowedCdf, 0, 1<<15)
	s.SavedUVModeCflAllowedCdf = table2()
	vk.Fill(name+"UVModeCflAllowedCdf", &s.SavedUVModeCflAllowedCdf, 0, 1<<15)
	s.SavedAngleDeltaCdf = table2()
	vk.Fill(name+"AngleDeltaCdf", &s.SavedAngleDeltaCdf, 0, 1<<15)
	s.SavedIntrabcCdf = table1()
	vk.Fill(name+"IntrabcCdf", &s.SavedIntrabcCdf, 0, 1<<15)
	s.SavedPartitionW8Cdf = table2()
	vk.Fill(name+"PartitionW8Cdf", &s.SavedPartitionW8Cdf, 0, 1<<15)
	s.SavedPartitionW16Cdf = table2()
	vk.Fill(name+"PartitionW16Cdf", &s.SavedPartitionW16Cdf, 0, 1<<15)
	s.SavedPartitionW32Cdf = table2()
	vk.Fill(name+"PartitionW32Cdf", &s.SavedPartitionW32Cdf, 0, 1<<15)
	s.SavedPartitionW64Cdf = table2()
	vk.Fill(name+"PartitionW64Cdf", &s.SavedPartitionW64Cdf, 0, 1<<15)
	s.SavedPartitionW128Cdf = table2()
	vk.Fill(name+"PartitionW128Cdf", &s.SavedPartitionW128Cdf, 0, 1<<15)
	s.SavedSegmentIdCdf = table2()
	vk.Fill(name+"SegmentIdCdf", &s.SavedSegmentIdCdf, 0, 1<<15)
	s.SavedSegmentIdPredictedCdf = table2()
	vk.Fill(name+"SegmentIdPredictedCdf", &s.SavedSegmentIdPredictedCdf, 0, 1<<15)
	s.SavedTx8x8Cdf = table2()
	vk.Fill(name+"Tx8x8Cdf", &s.SavedTx8x8Cdf, 0, 1<<15)
	s.SavedTx16x16Cdf = table2()
	vk.Fill(name+"Tx16x16Cdf", &s.SavedTx16x16Cdf, 0, 1<<15)
	s.SavedTx32x32Cdf = table2()
	vk.Fill(name+"Tx32x32Cdf", &s.SavedTx32x32Cdf, 0, 1<<15)
	s.SavedTx64x64Cdf = table2()
	vk.Fill(name+"Tx64x64Cdf", &s.SavedTx64x64Cdf, 0, 1<<15)
	s.SavedTxfmSplitCdf = table2()
	vk.Fill(name+"TxfmSplitCdf", &s.SavedTxfmSplitCdf, 0, 1<<15)
	s.SavedFilterIntraModeCdf = table1()
	vk.Fill(name+"FilterIntraModeCdf", &s.SavedFilterIntraModeCdf, 0, 1<<15)
	s.SavedFilterIntraCdf = table2()
	vk.Fill(name+"FilterIntraCdf", &s.SavedFilterIntraCdf, 0, 1<<15)
	s.SavedInterpFilterCdf = table2()
	vk.Fill(name+"InterpFilterCdf", &s.SavedInterpFilterCdf, 0, 1<<15)
	s.SavedMotionModeCdf = table2()
	vk.Fill(name+"MotionModeCdf", &s.SavedMotionModeCdf, 0, 1<<15)
	s.SavedNewMvCdf = table2()
	vk.Fill(name+"NewMvCdf", &s.SavedNewMvCdf, 0, 1<<15)
	s.SavedZeroMvCdf = table2()
	vk.Fill(name+"ZeroMvCdf", &s.SavedZeroMvCdf, 0, 1<<15)
	s.SavedRefMvCdf = table2()
	vk.Fill(name+"RefMvCdf", &s.SavedRefMvCdf, 0, 1<<15)
	s.SavedCompoundModeCdf = table2()
	vk.Fill(name+"CompoundModeCdf", &s.SavedCompoundModeCdf, 0, 1<<15)
	s.SavedDrlModeCdf = table2()
	vk.Fill(name+"DrlModeCdf", &s.SavedDrlModeCdf, 0, 1<<15)
	s.SavedIsInterCdf = table2()
	vk.Fill(name+"IsInterCdf", &s.SavedIsInterCdf, 0, 1<<15)
	s.SavedCompModeCdf = table2()
	vk.Fill(name+"CompModeCdf", &s.SavedCompModeCdf, 0, 1<<15)
	s.SavedSkipModeCdf = table2()
	vk.Fill(name+"SkipModeCdf", &s.SavedSkipModeCdf, 0, 1<<15)
	s.SavedSkipCdf = table2()
	vk.Fill(name+"SkipCdf", &s.SavedSkipCdf, 0, 1<<15)
	s.SavedCompRefCdf = table3()
	vk.Fill(name+"CompRefCdf", &s.SavedCompRefCdf, 0, 1<<15)
	s.SavedCompBwdRefCdf = table3()
	vk.Fill(name+"CompBwdRefCdf", &s.SavedCompBwdRefCdf, 0, 1<<15)
	s.SavedSingleRefCdf = table3()
	vk.Fill(name+"SingleRefCdf", &s.SavedSingleRefCdf, 0, 1<<15)
	s.SavedMvJointCdf[0] = table1()
	s.SavedMvJointCdf[1] = table1()
	vk.Fill(name+"MvJointCdf", &s.SavedMvJointCdf, 0, 1<<15)
	s.SavedMvClassCdf[0] = table2()
	s.SavedMvClassCdf[1] = table2()
	vk.Fill(name+"MvClassCdf", &s.SavedMvClassCdf, 0, 1<<15)
	s.SavedMvClass0BitCdf[0][0] = table1()
	s.SavedMvClass0BitCdf[0][1] = table1()
	s.SavedMvClass0BitCdf[1][0] = table1()
	s.SavedMvClass0BitCdf[1][1] = table1()
	vk.Fill(name+"MvClass0BitCdf", &s.SavedMvClass0BitCdf, 0, 1<<15)
	s.SavedMvFrCdf[0] = table2()
	s.SavedMvFrCdf[1] = table2()
	vk.Fill(name+"MvFrCdf", &s.SavedMvFrCdf, 0, 1<<15)
	s.SavedMvClass0FrCdf[0] = table3()
	s.SavedMvClass0FrCdf[1] = table3()
	vk.Fill(name+"MvClass0FrCdf", &s.SavedMvClass0FrCdf, 0, 1<<15)
	s.SavedMvClass0HpCdf[0][0] = table1()
	s.SavedMvClass0HpCdf[0][1] = table1()
	s.SavedMvClass0HpCdf[1][0] = table1()
	s.SavedMvClass0HpCdf[1][1] = table1()
	vk.Fill(name+"MvClass0HpCdf", &s.SavedMvClass0HpCdf, 0, 1<<15)
	s.SavedMvSignCdf[0][0] = table1()
	s.SavedMvSignCdf[0][1] = table1()
	s.SavedMvSignCdf[1][0] = table1()
	s.SavedMvSignCdf[1][1] = table1()
	vk.Fill(name+"MvSignCdf", &s.SavedMvSignCdf, 0, 1<<15)
	s.SavedMvBitCdf[0][0] = table2()
	s.SavedMvBitCdf[0][1] = table2()
	s.SavedMvBitCdf[1][0] = table2()
	s.SavedMvBitCdf[1][1] = table2()
	vk.Fill(name+"MvBitCdf", &s.SavedMvBitCdf, 0, 1<<15)
	s.SavedMvHpCdf[0][0] = table1()
	s.SavedMvHpCdf[0][1] = table1()
	s.SavedMvHpCdf[1][0] = table1()
	s.SavedMvHpCdf[1][1] = table1()
	vk.Fill(name+"MvHpCdf", &s.SavedMvHpCdf, 0, 1<<15)
	s.SavedPaletteYModeCdf = table3()
	vk.Fill(name+"PaletteYModeCdf", &s.SavedPaletteYModeCdf, 0, 1<<15)
	s.SavedPaletteUVModeCdf = table2()
	vk.Fill(name+"PaletteUVModeCdf", &s.SavedPaletteUVModeCdf, 0, 1<<15)
	s.SavedPaletteUVSizeCdf = table2()
	vk.Fill(name+"PaletteUVSizeCdf", &s.SavedPaletteUVSizeCdf, 0, 1<<15)
	s.SavedPaletteSize2YColorCdf = table2()
	vk.Fill(name+"PaletteSize2YColorCdf", &s.SavedPaletteSize2YColorCdf, 0, 1<<15)
	s.SavedPaletteSize2UVColorCdf = table2()
	vk.Fill(name+"PaletteSize2UVColorCdf", &s.SavedPaletteSize2UVColorCdf, 0, 1<<15)
	s.SavedPaletteSize3YColorCdf = table2()
	vk.Fill(name+"PaletteSize3YColorCdf", &s.SavedPaletteSize3YColorCdf, 0, 1<<15)
	s.SavedPaletteSize3UVColorCdf = table2()
	vk.Fill(name+"PaletteSize3UVColorCdf", &s.SavedPaletteSize3UVColorCdf, 0, 1<<15)
	s.SavedPaletteSize4YColorCdf = table2()
	vk.Fill(name+"PaletteSize4YColorCdf", &s.SavedPaletteSize4YColorCdf, 0, 1<<15)
	s.SavedPaletteSize4UVColorCdf = table2()
	vk.Fill(name+"PaletteSize4UVColorCdf", &s.SavedPaletteSize4UVColorCdf, 0, 1<<15)
	s.SavedPaletteSize5YColorCdf = table2()
	vk.Fill(name+"PaletteSize5YColorCdf", &s.SavedPaletteSize5YColorCdf, 0, 1<<15)
	s.SavedPaletteSize5UVColorCdf = table2()
	vk.Fill(name+"PaletteSize5UVColorCdf", &s.SavedPaletteSize5UVColorCdf, 0, 1<<15)
	s.SavedPaletteSize6YColorCdf = table2()
	vk.Fill(name+"PaletteSize6YColorCdf", &s.SavedPaletteSize6YColorCdf, 0, 1<<15)
	s.SavedPaletteSize6UVColorCdf = table2()
	vk.Fill(name+"PaletteSize6UVColorCdf", &s.SavedPaletteSize6UVColorCdf, 0, 1<<15)
	s.SavedPaletteSize7YColorCdf = table2()
	vk.Fill(name+"PaletteSize7YColorCdf", &s.SavedPaletteSize7YColorCdf, 0, 1<<15)
	s.SavedPaletteSize7UVColorCdf = table2()
	vk.Fill(name+"PaletteSize7UVColorCdf", &s.SavedPaletteSize7UVColorCdf, 0, 1<<15)
	s.SavedPaletteSize8YColorCdf = table2()
	vk.Fill(name+"PaletteSize8YColorCdf", &s.SavedPaletteSize8YColorCdf, 0, 1<<15)
	s.SavedPaletteSize8UVColorCdf = table2()
	vk.Fill(name+"PaletteSize8UVColorCdf", &s.SavedPaletteSize8UVColorCdf, 0, 1<<15)
	s.SavedDeltaQCdf = table1()
	vk.Fill(name+"DeltaQCdf", &s.SavedDeltaQCdf, 0, 1<<15)
	s.SavedDeltaLFCdf = table1()
	vk.Fill(name+"DeltaLFCdf", &s.SavedDeltaLFCdf, 0, 1<<15)
	s.SavedDeltaLFMultiCdf[0] = table1()
	s.SavedDeltaLFMultiCdf[1] = table1()
	s.SavedDeltaLFMultiCdf[2] = table1()
	s.SavedDeltaLFMultiCdf[3] = table1()
	vk.Fill(name+"DeltaLFMultiCdf", &s.SavedDeltaLFMultiCdf, 0, 1<<15)
	s.SavedIntraTxTypeSet1Cdf = table3()
	vk.Fill(name+"IntraTxTypeSet1Cdf", &s.SavedIntraTxTypeSet1Cdf, 0, 1<<15)
	s.SavedIntraTxTypeSet2Cdf = table3()
	vk.Fill(name+"IntraTxTypeSet2Cdf", &s.SavedIntraTxTypeSet2Cdf, 0, 1<<15)
	s.SavedInterTxTypeSet1Cdf = table2()
	vk.Fill(name+"InterTxTypeSet1Cdf", &s.SavedInterTxTypeSet1Cdf, 0, 1<<15)
	s.SavedInterTxTypeSet2Cdf = table1()
	vk.Fill(name+"InterTxTypeSet2Cdf", &s.SavedInterTxTypeSet2Cdf, 0, 1<<15)
	s.SavedInterTxTypeSet3Cdf = table2()
	vk.Fill(name+"InterTxTypeSet3Cdf", &s.SavedInterTxTypeSet3Cdf, 0, 1<<15)
	s.SavedUseObmcCdf = table2()
	vk.Fill(name+"UseObmcCdf", &s.SavedUseObmcCdf, 0, 1<<15)
	s.SavedInterIntraCdf = table2()
	vk.Fill(name+"InterIntraCdf", &s.SavedInterIntraCdf, 0, 1<<15)
	s.SavedCompRefTypeCdf = table2()
	vk.Fill(name+"CompRefTypeCdf", &s.SavedCompRefTypeCdf, 0, 1<<15)
	s.SavedCflSignCdf = table1()
	vk.Fill(name+"CflSignCdf", &s.SavedCflSignCdf, 0, 1<<15)
	s.SavedUniCompRefCdf = table3()
	vk.Fill(name+"UniCompRefCdf", &s.SavedUniCompRefCdf, 0, 1<<15)
	s.SavedWedgeInterIntraCdf = table2()
	vk.Fill(name+"WedgeInterIntraCdf", &s.SavedWedgeInterIntraCdf, 0, 1<<15)
	s.SavedCompGroupIdxCdf = table2()
	vk.Fill(name+"CompGroupIdxCdf", &s.SavedCompGroupIdxCdf, 0, 1<<15)
	s.SavedCompoundIdxCdf = table2()
	vk.Fill(name+"CompoundIdxCdf", &s.SavedCompoundIdxCdf, 0, 1<<15)
	s.SavedCompoundTypeCdf = table2()
	vk.Fill(name+"CompoundTypeCdf", &s.SavedCompoundTypeCdf, 0, 1<<15)
	s.SavedInterIntraModeCdf = table2()
	vk.Fill(name+"InterIntraModeCdf", &s.SavedInterIntraModeCdf, 0, 1<<15)
	s.SavedWedgeIndexCdf = table2()
	vk.Fill(name+"WedgeIndexCdf", &s.SavedWedgeIndexCdf, 0, 1<<15)
	s.SavedCflAlphaCdf = table2()
	vk.Fill(name+"CflAlphaCdf", &s.SavedCflAlphaCdf, 0, 1<<15)
	s.SavedUseWienerCdf = table1()
	vk.Fill(name+"UseWienerCdf", &s.SavedUseWienerCdf, 0, 1<<15)
	s.SavedUseSgrprojCdf = table1()
	vk.Fill(name+"UseSgrprojCdf", &s.SavedUseSgrprojCdf, 0, 1<<15)
	s.SavedRestorationTypeCdf = table1()
	vk.Fill(name+"RestorationTypeCdf", &s.SavedRestorationTypeCdf, 0, 1<<15)
}

func clearTile(s *state.State) {
	counters3(s.TileTxbSkipCdf)
	counters3(s.TileEobPt16Cdf)
	counters3(s.TileEobPt32Cdf)
	counters3(s.TileEobPt64Cdf)
	counters3(s.TileEobPt128Cdf)
	counters3(s.TileEobPt256Cdf)
	counters2(s.TileEobPt512Cdf)
	counters2(s.TileEobPt1024Cdf)
	counters4(s.TileEobExtraCdf)
	counters3(s.TileDcSignCdf)
	counters4(s.TileCoeffBaseEobCdf)
	counters4(s.TileCoeffBaseCdf)
	counters4(s.TileCoeffBrCdf)
	counters3(s.TileIntraFrameYModeCdf)
	counters2(s.TileYModeCdf)
	counters2(s.TileUVModeCflNotAllowedCdf)
	counters2(s.TileUVModeCflAllowedCdf)
	counters2(s.TileAngleDeltaCdf)
	counters1(s.TileIntrabcCdf)
	counters2(s.TilePartitionW8Cdf)
	counters2(s.TilePartitionW16Cdf)
	counters2(s.TilePartitionW32Cdf)
	counters2(s.TilePartitionW64Cdf)
	counters2(s.TilePartitionW128Cdf)
	counters2(s.TileSegmentIdCdf)
	counters2(s.TileSegmentIdPredictedCdf)
	counters2(s.TileTx8x8Cdf)
	counters2(s.TileTx16x16Cdf)
	counters2(s.TileTx32x32Cdf)
	counters2(s.TileTx64x64Cdf)
	counters2(s.TileTxfmSplitCdf)
	counters1(s.TileFilterIntraModeCdf)
	counters2(s.TileFilterIntraCdf)
	counters2(s.TileInterpFilterCdf)
	counters2(s.TileMotionModeCdf)
	counters2(s.TileNewMvCdf)
	counters2(s.TileZeroMvCdf)
	counters2(s.TileRefMvCdf)
	counters2(s.TileCompoundModeCdf)
	counters2(s.TileDrlModeCdf)
	counters2(s.TileIsInterCdf)
	counters2(s.TileCompModeCdf)
	counters2(s.TileSkipModeCdf)
	counters2(s.TileSkipCdf)
	counters3(s.TileCompRefCdf)
	counters3(s.TileCompBwdRefCdf)
	counters3(s.TileSingleRefCdf)
	counters1(s.TileMvJointCdf[0])
	counters1(s.TileMvJointCdf[1])
	counters2(s.TileMvClassCdf[0])
	counters2(s.TileMvClassCdf[1])
	counters1(s.TileMvClass0BitCdf[0][0])
	counters1(s.TileMvClass0BitCdf[0][1])
	counters1(s.TileMvClass0BitCdf[1][0])
	counters1(s.TileMvClass0BitCdf[1][1])
	counters2(s.TileMvFrCdf[0])
	counters2(s.TileMvFrCdf[1])
	counters3(s.TileMvClass0FrCdf[0])
	counters3(s.TileMvClass0FrCdf[1])
	counters1(s.TileMvClass0HpCdf[0][0])
	counters1(s.TileMvClass0HpCdf[0][1])
	counters1(s.TileMvClass0HpCdf[1][0])
	counters1(s.TileMvClass0HpCdf[1][1])
	counters1(s.TileMvSignCdf[0][0])
	counters1(s.TileMvSignCdf[0][1])
	counters1(s.TileMvSignCdf[1][0])
	counters1(s.TileMvSignCdf[1][1])
	counters2(s.TileMvBitCdf[0][0])
	counters2(s.TileMvBitCdf[0][1])
	counters2(s.TileMvBitCdf[1][0])
	counters2(s.TileMvBitCdf[1][1])
	counters1(s.TileMvHpCdf[0][0])
	counters1(s.TileMvHpCdf[0][1])
	counters1(s.TileMvHpCdf[1][0])
	counters1(s.TileMvHpCdf[1][1])
	counters3(s.TilePaletteYModeCdf)
	counters2(s.TilePaletteUVModeCdf)
	counters2(s.TilePaletteUVSizeCdf)
	counters2(s.TilePaletteSize2YColorCdf)
	counters2(s.TilePaletteSize2UVColorCdf)
	counters2(s.TilePaletteSize3YColorCdf)
	counters2(s.TilePaletteSize3UVColorCdf)
	counters2(s.TilePaletteSize4YColorCdf)
	counters2(s.TilePaletteSize4UVColorCdf)
	counters2(s.TilePaletteSize5YColorCdf)
	counters2(s.TilePaletteSize5UVColorCdf)
	counters2(s.TilePaletteSize6YColorCdf)
	counters2(s.TilePaletteSize6UVColorCdf)
	counters2(s.TilePaletteSize7YColorCdf)
	counters2(s.TilePaletteSize7UVColorCdf)
	counters2(s.TilePaletteSize8YColorCdf)
	counters2(s.TilePaletteSize8UVColorCdf)
	counters1(s.TileDeltaQCdf)
	counters1(s.TileDeltaLFCdf)
	counters1(s.TileDeltaLFMultiCdf[0])
	counters1(s.TileDeltaLFMultiCdf[1])
	counters1(s.TileDeltaLFMultiCdf[2])
	counters1(s.TileDeltaLFMultiCdf[3])
	counters3(s.TileIntraTxTypeSet1Cdf)
	counters3(s.TileIntraTxTypeSet2Cdf)
	counters2(s.TileInterTxTypeSet1Cdf)
	counters1(s.TileInterTxTypeSet2Cdf)
	counters2(s.TileInterTxTypeSet3Cdf)
	counters2(s.TileUseObmcCdf)
	counters2(s.TileInterIntraCdf)
	counters2(s.TileCompRefTypeCdf)
	counters1(s.TileCflSignCdf)
	counters3(s.TileUniCompRefCdf)
	counters2(s.TileWedgeInterIntraCdf)
	counters2(s.TileCompGroupIdxCdf)
	counters2(s.TileCompoundIdxCdf)
	counters2(s.TileCompoundTypeCdf)
	counters2(s.TileInterIntraModeCdf)
	counters2(s.TileWedgeIndexCdf)
	counters2(s.TileCflAlphaCdf)
	counters1(s.TileUseWienerCdf)
	counters1(s.TileUseSgrprojCdf)
	counters1(s.TileRestorationTypeCdf)
}

// tileOf makes the tile tables the frame tables.
func tileOf(s *state.State) {
	s.TileTxbSkipCdf = s.TxbSkipCdf
	s.TileEobPt16Cdf = s.EobPt16Cdf
	s.TileEobPt32Cdf = s.EobPt32Cdf
	s.TileEobPt64Cdf = s.EobPt64Cdf
	s.TileEobPt128Cdf = s.EobPt128Cdf
	s.TileEobPt256Cdf = s.EobPt256Cdf
	s.TileEobPt512Cdf = s.EobPt512Cdf
	s.TileEobPt1024Cdf = s.EobPt1024Cdf
	s.TileEobExtraCdf = s.EobExtraCdf
	s.TileDcSignCdf = s.DcSignCdf
	s.TileCoeffBaseEobCdf = s.CoeffBaseEobCdf
	s.TileCoeffBaseCdf = s.CoeffBaseCdf
	s.TileCoeffBrCdf = s.CoeffBrCdf
	s.TileIntraFrameYModeCdf = s.IntraFrameYModeCdf
	s.TileYModeCdf = s.YModeCdf
	s.TileUVModeCflNotAllowedCdf = s.UVModeCflNotAllowedCdf
	s.TileUVModeCflAllowedCdf = s.UVModeCflAllowedCdf
	s.TileAngleDeltaCdf = s.AngleDeltaCdf
	s.TileIntrabcCdf = s.IntrabcCdf
	s.TilePartitionW8Cdf = s.PartitionW8Cdf
	s.TilePartitionW16Cdf = s.PartitionW16Cdf
	s.TilePartitionW32Cdf = s.PartitionW32Cdf
	s.TilePartitionW64Cdf = s.PartitionW64Cdf
	s.TilePartitionW128Cdf = s.PartitionW128Cdf
	s.TileSegmentIdCdf = s.SegmentIdCdf
	s.TileSegmentIdPredictedCdf = s.SegmentIdPredictedCdf
	s.TileTx8x8Cdf = s.Tx8x8Cdf
	s.TileTx16x16Cdf = s.Tx16x16Cdf
	s.TileTx32x32Cdf = s.Tx32x32Cdf
	s.TileTx64x64Cdf = s.Tx64x64Cdf
	s.TileTxfmSplitCdf = s.TxfmSplitCdf
	s.TileFilterIntraModeCdf = s.FilterIntraModeCdf
	s.TileFilterIntraCdf = s.FilterIntraCdf
	s.TileInterpFilterCdf = s.InterpFilterCdf
	s.TileMotionModeCdf = s.MotionModeCdf
	s.TileNewMvCdf = s.NewMvCdf
	s.TileZeroMvCdf = s.ZeroMvCdf
	s.TileRefMvCdf = s.RefMvCdf
	s.TileCompoundModeCdf = s.CompoundModeCdf
	s.TileDrlModeCdf = s.DrlModeCdf
	s.TileIsInterCdf = s.IsInterCdf
	s.TileCompModeCdf = s.CompModeCdf
	s.TileSkipModeCdf = s.SkipModeCdf
	s.TileSkipCdf = s.SkipCdf
	s.TileCompRefCdf = s.CompRefCdf
	s.TileCompBwdRefCdf = s.CompBwdRefCdf
	s.TileSingleRefCdf = s.SingleRefCdf
	s.TileMvJointCdf = s.MvJointCdf
	s.TileMvClassCdf = s.MvClassCdf
	s.TileMvClass0BitCdf = s.MvClass0BitCdf
	s.TileMvFrCdf = s.MvFrCdf
	s.TileMvClass0FrCdf = s.MvClass0FrCdf
	s.TileMvClass0HpCdf = s.MvClass0HpCdf
	s.TileMvSignCdf = s.MvSignCdf
	s.TileMvBitCdf = s.MvBitCdf
	s.TileMvHpCdf = s.MvHpCdf
	s.TilePaletteYModeCdf = s.PaletteYModeCdf
	s.TilePaletteUVModeCdf = s.PaletteUVModeCdf
	s.TilePaletteUVSizeCdf = s.PaletteUVSizeCdf
	s.TilePaletteSize2YColorCdf = s.PaletteSize2YColorCdf
	s.TilePaletteSize2UVColorCdf = s.PaletteSize2UVColorCdf
	s.TilePaletteSize3YColorCdf = s.PaletteSize3YColorCdf
	s.TilePaletteSize3UVColorCdf = s.PaletteSize3UVColorCdf
	s.TilePaletteSize4YColorCdf = s.PaletteSize4YColorCdf
	s.TilePaletteSize4UVColorCdf = s.PaletteSize4UVColorCdf
	s.TilePaletteSize5YColorCdf = s.PaletteSize5YColorCdf
	s.TilePaletteSize5UVColorCdf = s.PaletteSize5UVColorCdf
	s.TilePaletteSize6YColorCdf = s.PaletteSize6YColorCdf
	s.TilePaletteSize6UVColorCdf = s.PaletteSize6UVColorCdf
	s.TilePaletteSize7YColorCdf = s.PaletteSize7YColorCdf
	s.TilePaletteSize7UVColorCdf = s.PaletteSize7UVColorCdf
	s.TilePaletteSize8YColorCdf = s.PaletteSize8YColorCdf
	s.TilePaletteSize8UVColorCdf = s.PaletteSize8UVColorCdf
	s.TileDeltaQCdf = s.DeltaQCdf
	s.TileDeltaLFCdf = s.DeltaLFCdf
	s.TileDeltaLFMultiCdf = s.DeltaLFMultiCdf
	s.TileIntraTxTypeSet1Cdf = s.IntraTxTypeSet1Cdf
	s.TileIntraTxTypeSet2Cdf = s.IntraTxTypeSet2Cdf
	s.TileInterTxTypeSet1Cdf = s.InterTxTypeSet1Cdf
	s.TileInterTxTypeSet2Cdf = s.InterTxTypeSet2Cdf
	s.TileInterTxTypeSet3Cdf = s.InterTxTypeSet3Cdf
	s.TileUseObmcCdf = s.UseObmcCdf
	s.TileInterIntraCdf = s.InterIntraCdf
	s.TileCompRefTypeCdf = s.CompRefTypeCdf
	s.TileCflSignCdf = s.CflSignCdf
	s.TileUniCompRefCdf = s.UniCompRefCdf
	s.TileWedgeInterIntraCdf = s.WedgeInterIntraCdf
	s.TileCompGroupIdxCdf = s.CompGroupIdxCdf
	s.TileCompoundIdxCdf = s.CompoundIdxCdf
	s.TileCompoundTypeCdf = s.CompoundTypeCdf
	s.TileInterIntraModeCdf = s.InterIntraModeCdf
	s.TileWedgeIndexCdf = s.WedgeIndexCdf
	s.TileCflAlphaCdf = s.CflAlphaCdf
	s.TileUseWienerCdf = s.UseWienerCdf
	s.TileUseSgrprojCdf = s.UseSgrprojCdf
	s.TileRestorationTypeCdf = s.RestorationTypeCdf
}

// scribbleTile overwrites the tables in place.
func scribbleTile(s *state.State) {
	vk.Fill("scribbleTxbSkipCdf", &s.TileTxbSkipCdf, 0, 1<<15)
	vk.Fill("scribbleEobPt16Cdf", &s.TileEobPt16Cdf, 0, 1<<15)
	vk.Fill("scribbleEobPt32Cdf", &s.TileEobPt32Cdf, 0, 1<<15)
	vk.Fill("scribbleEobPt64Cdf", &s.TileEobPt64Cdf, 0, 1<<15)
	vk.Fill("scribbleEobPt128Cdf", &s.TileEobPt128Cdf, 0, 1<<15)
	vk.Fill("scribbleEobPt256Cdf", &s.TileEobPt256Cdf, 0, 1<<15)
	vk.Fill("scribbleEobPt512Cdf", &s.TileEobPt512Cdf, 0, 1<<15)
	vk.Fill("scribbleEobPt1024Cdf", &s.TileEobPt1024Cdf, 0, 1<<15)
	vk.Fill("scribbleEobExtraCdf", &s.TileEobExtraCdf, 0, 1<<15)
	vk.Fill("scribbleDcSignCdf", &s.TileDcSignCdf, 0, 1<<15)
	vk.Fill("scribbleCoeffBaseEobCdf", &s.TileCoeffBaseEobCdf, 0, 1<<15)
	vk.Fill("scribbleCoeffBaseCdf", &s.TileCoeffBaseCdf, 0, 1<<15)
	vk.Fill("scribbleCoeffBrCdf", &s.TileCoeffBrCdf, 0, 1<<15)
	vk.Fill("scribbleIntraFrameYModeCdf", &s.TileIntraFrameYModeCdf, 0, 1<<15)
	vk.Fill("scribbleYModeCdf", &s.TileYModeCdf, 0, 1<<15)
	vk.Fill("scribbleUVModeCflNotAllowedCdf", &s.TileUVModeCflNotAllowedCdf, 0, 1<<15)
	vk.Fill("scribbleUVModeCflAllowedCdf", &s.TileUVModeCflAllowedCdf, 0, 1<<15)
	vk.Fill("scribbleAngleDeltaCdf", &s.TileAngleDeltaCdf, 0, 1<<15)
	vk.Fill("scribbleIntrabcCdf", &s.TileIntrabcCdf, 0, 1<<15)
	vk.Fill("scribblePartitionW8Cdf", &s.TilePartitionW8Cdf, 0, 1<<15)
	vk.Fill("scribblePartitionW16Cdf", &s.TilePartitionW16Cdf, 0, 1<<15)
	vk.Fill("scribblePartitionW32Cdf", &s.TilePartitionW32Cdf, 0, 1<<15)
	vk.Fill("scribblePartitionW64Cdf", &s.TilePartitionW64Cdf, 0, 1<<15)
	vk.Fill("scribblePartitionW128Cdf", &s.TilePartitionW128Cdf, 0, 1<<15)
	vk.Fill("scribbleSegmentIdCdf", &s.TileSegmentIdCdf, 0, 1<<15)
	vk.Fill("scribbleSegmentIdPredictedCdf", &s.TileSegmentIdPredictedCdf, 0, 1<<15)
	vk.Fill("scribbleTx8x8Cdf", &s.TileTx8x8Cdf, 0, 1<<15)
	vk.Fill("scribbleTx16x16Cdf", &s.TileTx16x16Cdf, 0, 1<<15)
	vk.Fill("scribbleTx32x32Cdf", &s.TileTx32x32Cdf, 0, 1<<15)
	vk.Fill("scribbleTx64x64Cdf", &s.TileTx64x64Cdf, 0, 1<<15)
	vk.Fill("scribbleTxfmSplitCdf", &s.TileTxfmSplitCdf, 0, 1<<15)
	vk.Fill("scribbleFilterIntraModeCdf", &s.TileFilterIntraModeCdf, 0, 1<<15)
	vk.Fill("scribbleFilterIntraCdf", &s.TileFilterIntraCdf, 0, 1<<15)
	vk.Fill("scribbleInterpFilterCdf", &s.TileInterpFilterCdf, 0, 1<<15)
	vk.Fill("scribbleMotionModeCdf", &s.TileMotionModeCdf, 0, 1<<15)
	vk.Fill("scribbleNewMvCdf", &s.TileNewMvCdf, 0, 1<<15)
	vk.Fill("scribbleZeroMvCdf", &s.TileZeroMvCdf, 0, 1<<15)
	vk.Fill("scribbleRefMvCdf", &s.TileRefMvCdf, 0, 1<<15)
	vk.Fill("scribbleCompoundModeCdf", &s.TileCompoundModeCdf, 0, 1<<15)
	vk.Fill("scribbleDrlModeCdf", &s.TileDrlModeCdf, 0, 1<<15)
	vk.Fill("scribbleIsInterCdf", &s.TileIsInterCdf, 0, 1<<15)
	vk.Fill("scribbleCompModeCdf", &s.TileCompModeCdf, 0, 1<<15)
	vk.Fill("scribbleSkipModeCdf", &s.TileSkipModeCdf, 0, 1<<15)
	vk.Fill("scribbleSkipCdf", &s.TileSkipCdf, 0, 1<<15)
	vk.Fill("scribbleCompRefCdf", &s.TileCompRefCdf, 0, 1<<15)
	vk.Fill("scribbleCompBwdRefCdf", &s.TileCompBwdRefCdf, 0, 1<<15)
	vk.Fill("scribbleSingleRefCdf", &s.TileSingleRefCdf, 0, 1<<15)
	vk.Fill("scribbleMvJointCdf", &s.TileMvJointCdf, 0, 1<<15)
	vk.Fill("scribbleMvClassCdf", &s.TileMvClassCdf, 0, 1<<15)
	vk.Fill("scribbleMvClass0BitCdf", &s.TileMvClass0BitCdf, 0, 1<<15)
	vk.Fill("scribbleMvFrCdf", &s.TileMvFrCdf, 0, 1<<15)
	vk.Fill("scribbleMvClass0FrCdf", &s.TileMvClass0FrCdf, 0, 1<<15)
	vk.Fill("scribbleMvClass0HpCdf", &s.TileMvClass0HpCdf, 0, 1<<15)
	vk.Fill("scribbleMvSignCdf", &s.TileMvSignCdf, 0, 1<<15)
	vk.Fill("scribbleMvBitCdf", &s.TileMvBitCdf, 0, 1<<15)
	vk.Fill("scribbleMvHpCdf", &s.TileMvHpCdf, 0, 1<<15)
	vk.Fill("scribblePaletteYModeCdf", &s.TilePaletteYModeCdf, 0, 1<<15)
	vk.Fill("scribblePaletteUVModeCdf", &s.TilePaletteUVModeCdf, 0, 1<<15)
	vk.Fill("scribblePaletteUVSizeCdf", &s.TilePaletteUVSizeCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize2YColorCdf", &s.TilePaletteSize2YColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize2UVColorCdf", &s.TilePaletteSize2UVColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize3YColorCdf", &s.TilePaletteSize3YColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize3UVColorCdf", &s.TilePaletteSize3UVColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize4YColorCdf", &s.TilePaletteSize4YColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize4UVColorCdf", &s.TilePaletteSize4UVColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize5YColorCdf", &s.TilePaletteSize5YColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize5UVColorCdf", &s.TilePaletteSize5UVColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize6YColorCdf", &s.TilePaletteSize6YColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize6UVColorCdf", &s.TilePaletteSize6UVColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize7YColorCdf", &s.TilePaletteSize7YColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize7UVColorCdf", &s.TilePaletteSize7UVColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize8YColorCdf", &s.TilePaletteSize8YColorCdf, 0, 1<<15)
	vk.Fill("scribblePaletteSize8UVColorCdf", &s.TilePaletteSize8UVColorCdf, 0, 1<<15)
	vk.Fill("scribbleDeltaQCdf", &s.TileDeltaQCdf, 0, 1<<15)
	vk.Fill("scribbleDeltaLFCdf", &s.TileDeltaLFCdf, 0, 1<<15)
	vk.Fill("scribbleDeltaLFMultiCdf", &s.TileDeltaLFMultiCdf, 0, 1<<15)
	vk.Fill("scribbleIntraTxTypeSet1Cdf", &s.TileIntraTxTypeSet1Cdf, 0, 1<<15)
	vk.Fill("scribbleIntraTxTypeSet2Cdf", &s.TileIntraTxTypeSet2Cdf, 0, 1<<15)
	vk.Fill("scribbleInterTxTypeSet1Cdf", &s.TileInterTxTypeSet1Cdf, 0, 1<<15)
	vk.Fill("scribbleInterTxTypeSet2Cdf", &s.TileInterTxTypeSet2Cdf, 0, 1<<15)
	vk.Fill("scribbleInterTxTypeSet3Cdf", &s.TileInterTxTypeSet3Cdf, 0, 1<<15)
	vk.Fill("scribbleUseObmcCdf", &s.TileUseObmcCdf, 0, 1<<15)
	vk.Fill("scribbleInterIntraCdf", &s.TileInterIntraCdf, 0, 1<<15)
	vk.Fill("scribbleCompRefTypeCdf", &s.TileCompRefTypeCdf, 0, 1<<15)
	vk.Fill("scribbleCflSignCdf", &s.TileCflSignCdf, 0, 1<<15)
	vk.Fill("scribbleUniCompRefCdf", &s.TileUniCompRefCdf, 0, 1<<15)
	vk.Fill("scribbleWedgeInterIntraCdf", &s.TileWedgeInterIntraCdf, 0, 1<<15)
	vk.Fill("scribbleCompGroupIdxCdf", &s.TileCompGroupIdxCdf, 0, 1<<15)
	vk.Fill("scribbleCompoundIdxCdf", &s.TileCompoundIdxCdf, 0, 1<<15)
	vk.Fill("scribbleCompoundTypeCdf", &s.TileCompoundTypeCdf, 0, 1<<15)
	vk.Fill("scribbleInterIntraModeCdf", &s.TileInterIntraModeCdf, 0, 1<<15)
	vk.Fill("scribbleWedgeIndexCdf", &s.TileWedgeIndexCdf, 0, 1<<15)
	vk.Fill("scribbleCflAlphaCdf", &s.TileCflAlphaCdf, 0, 1<<15)
	vk.Fill("scribbleUseWienerCdf", &s.TileUseWienerCdf, 0, 1<<15)
	vk.Fill("scribbleUseSgrprojCdf", &s.TileUseSgrprojCdf, 0, 1<<15)
	vk.Fill("scribbleRestorationTypeCdf", &s.TileRestorationTypeCdf, 0, 1<<15)
}

func sameTile(a, b *state.State, msg string) {
	vk.Assert(vk.Eq(a.TileTxbSkipCdf, b.TileTxbSkipCdf), "TxbSkipCdf "+msg)
	vk.Assert(vk.Eq(a.TileEobPt16Cdf, b.TileEobPt16Cdf), "EobPt16Cdf "+msg)
	vk.Assert(vk.Eq(a.TileEobPt32Cdf, b.TileEobPt32Cdf), "EobPt32Cdf "+msg)
	vk.Assert(vk.Eq(a.TileEobPt64Cdf, b.TileEobPt64Cdf), "EobPt64Cdf "+msg)
	vk.Assert(vk.Eq(a.TileEobPt128Cdf, b.TileEobPt128Cdf), "EobPt128Cdf "+msg)
	vk.Assert(vk.Eq(a.TileEobPt256Cdf, b.TileEobPt256Cdf), "EobPt256Cdf "+msg)
	vk.Assert(vk.Eq(a.TileEobPt512Cdf, b.TileEobPt512Cdf), "EobPt512Cdf "+msg)
	vk.Assert(vk.Eq(a.TileEobPt1024Cdf, b.TileEobPt1024Cdf), "EobPt1024Cdf "+msg)
	vk.Assert(vk.Eq(a.TileEobExtraCdf, b.TileEobExtraCdf), "EobExtraCdf "+msg)
	vk.Assert(vk.Eq(a.TileDcSignCdf, b.TileDcSignCdf), "DcSignCdf "+msg)
	vk.Assert(vk.Eq(a.TileCoeffBaseEobCdf, b.TileCoeffBaseEobCdf), "CoeffBaseEobCdf "+msg)
	vk.Assert(vk.Eq(a.TileCoeffBaseCdf, b.TileCoeffBaseCdf), "CoeffBaseCdf "+msg)
	vk.Assert(vk.Eq(a.TileCoeffBrCdf, b.TileCoeffBrCdf), "CoeffBrCdf "+msg)
	vk.Assert(vk.Eq(a.TileIntraFrameYModeCdf, b.TileIntraFrameYModeCdf), "IntraFrameYModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileYModeCdf, b.TileYModeCdf), "YModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileUVModeCflNotAllowedCdf, b.TileUVModeCflNotAllowedCdf), "UVModeCflNotAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.TileUVModeCflAllowedCdf, b.TileUVModeCflAllowedCdf), "UVModeCflAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.TileAngleDeltaCdf, b.TileAngleDeltaCdf), "AngleDeltaCdf "+msg)
	vk.Assert(vk.Eq(a.TileIntrabcCdf, b.TileIntrabcCdf), "IntrabcCdf "+msg)
	vk.Assert(vk.Eq(a.TilePartitionW8Cdf, b.TilePartitionW8Cdf), "PartitionW8Cdf "+msg)
	vk.Assert(vk.Eq(a.TilePartitionW16Cdf, b.TilePartitionW16Cdf), "PartitionW16Cdf "+msg)
	vk.Assert(vk.Eq(a.TilePartitionW32Cdf, b.TilePartitionW32Cdf), "PartitionW32Cdf "+msg)
	vk.Assert(vk.Eq(a.TilePartitionW64Cdf, b.TilePartitionW64Cdf), "PartitionW64Cdf "+msg)
	vk.Assert(vk.Eq(a.TilePartitionW128Cdf, b.TilePartitionW128Cdf), "PartitionW128Cdf "+msg)
	vk.Assert(vk.Eq(a.TileSegmentIdCdf, b.TileSegmentIdCdf), "SegmentIdCdf "+msg)
	vk.Assert(vk.Eq(a.TileSegmentIdPredictedCdf, b.TileSegmentIdPredictedCdf), "SegmentIdPredictedCdf "+msg)
	vk.Assert(vk.Eq(a.TileTx8x8Cdf, b.TileTx8x8Cdf), "Tx8x8Cdf "+msg)
	vk.Assert(vk.Eq(a.TileTx16x16Cdf, b.TileTx16x16Cdf), "Tx16x16Cdf "+msg)
	vk.Assert(vk.Eq(a.TileTx32x32Cdf, b.TileTx32x32Cdf), "Tx32x32Cdf "+msg)
	vk.Assert(vk.Eq(a.TileTx64x64Cdf, b.TileTx64x64Cdf), "Tx64x64Cdf "+msg)
	vk.Assert(vk.Eq(a.TileTxfmSplitCdf, b.TileTxfmSplitCdf), "TxfmSplitCdf "+msg)
	vk.Assert(vk.Eq(a.TileFilterIntraModeCdf, b.TileFilterIntraModeCdf), "FilterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileFilterIntraCdf, b.TileFilterIntraCdf), "FilterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.TileInterpFilterCdf, b.TileInterpFilterCdf), "InterpFilterCdf "+msg)
	vk.Assert(vk.Eq(a.TileMotionModeCdf, b.TileMotionModeCdf), "MotionModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileNewMvCdf, b.TileNewMvCdf), "NewMvCdf "+msg)
	vk.Assert(vk.Eq(a.TileZeroMvCdf, b.TileZeroMvCdf), "ZeroMvCdf "+msg)
	vk.Assert(vk.Eq(a.TileRefMvCdf, b.TileRefMvCdf), "RefMvCdf "+msg)
	vk.Assert(vk.Eq(a.TileCompoundModeCdf, b.TileCompoundModeCdf), "CompoundModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileDrlModeCdf, b.TileDrlModeCdf), "DrlModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileIsInterCdf, b.TileIsInterCdf), "IsInterCdf "+msg)
	vk.Assert(vk.Eq(a.TileCompModeCdf, b.TileCompModeCdf), "CompModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileSkipModeCdf, b.TileSkipModeCdf), "SkipModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileSkipCdf, b.TileSkipCdf), "SkipCdf "+msg)
	vk.Assert(vk.Eq(a.TileCompRefCdf, b.TileCompRefCdf), "CompRefCdf "+msg)
	vk.Assert(vk.Eq(a.TileCompBwdRefCdf, b.TileCompBwdRefCdf), "CompBwdRefCdf "+msg)
	vk.Assert(vk.Eq(a.TileSingleRefCdf, b.TileSingleRefCdf), "SingleRefCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvJointCdf, b.TileMvJointCdf), "MvJointCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvClassCdf, b.TileMvClassCdf), "MvClassCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvClass0BitCdf, b.TileMvClass0BitCdf), "MvClass0BitCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvFrCdf, b.TileMvFrCdf), "MvFrCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvClass0FrCdf, b.TileMvClass0FrCdf), "MvClass0FrCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvClass0HpCdf, b.TileMvClass0HpCdf), "MvClass0HpCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvSignCdf, b.TileMvSignCdf), "MvSignCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvBitCdf, b.TileMvBitCdf), "MvBitCdf "+msg)
	vk.Assert(vk.Eq(a.TileMvHpCdf, b.TileMvHpCdf), "MvHpCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteYModeCdf, b.TilePaletteYModeCdf), "PaletteYModeCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteUVModeCdf, b.TilePaletteUVModeCdf), "PaletteUVModeCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteUVSizeCdf, b.TilePaletteUVSizeCdf), "PaletteUVSizeCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize2YColorCdf, b.TilePaletteSize2YColorCdf), "PaletteSize2YColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize2UVColorCdf, b.TilePaletteSize2UVColorCdf), "PaletteSize2UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize3YColorCdf, b.TilePaletteSize3YColorCdf), "PaletteSize3YColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize3UVColorCdf, b.TilePaletteSize3UVColorCdf), "PaletteSize3UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize4YColorCdf, b.TilePaletteSize4YColorCdf), "PaletteSize4YColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize4UVColorCdf, b.TilePaletteSize4UVColorCdf), "PaletteSize4UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize5YColorCdf, b.TilePaletteSize5YColorCdf), "PaletteSize5YColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize5UVColorCdf, b.TilePaletteSize5UVColorCdf), "PaletteSize5UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize6YColorCdf, b.TilePaletteSize6YColorCdf), "PaletteSize6YColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize6UVColorCdf, b.TilePaletteSize6UVColorCdf), "PaletteSize6UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize7YColorCdf, b.TilePaletteSize7YColorCdf), "PaletteSize7YColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize7UVColorCdf, b.TilePaletteSize7UVColorCdf), "PaletteSize7UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize8YColorCdf, b.TilePaletteSize8YColorCdf), "PaletteSize8YColorCdf "+msg)
	vk.Assert(vk.Eq(a.TilePaletteSize8UVColorCdf, b.TilePaletteSize8UVColorCdf), "PaletteSize8UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.TileDeltaQCdf, b.TileDeltaQCdf), "DeltaQCdf "+msg)
	vk.Assert(vk.Eq(a.TileDeltaLFCdf, b.TileDeltaLFCdf), "DeltaLFCdf "+msg)
	vk.Assert(vk.Eq(a.TileDeltaLFMultiCdf, b.TileDeltaLFMultiCdf), "DeltaLFMultiCdf "+msg)
	vk.Assert(vk.Eq(a.TileIntraTxTypeSet1Cdf, b.TileIntraTxTypeSet1Cdf), "IntraTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.TileIntraTxTypeSet2Cdf, b.TileIntraTxTypeSet2Cdf), "IntraTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.TileInterTxTypeSet1Cdf, b.TileInterTxTypeSet1Cdf), "InterTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.TileInterTxTypeSet2Cdf, b.TileInterTxTypeSet2Cdf), "InterTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.TileInterTxTypeSet3Cdf, b.TileInterTxTypeSet3Cdf), "InterTxTypeSet3Cdf "+msg)
	vk.Assert(vk.Eq(a.TileUseObmcCdf, b.TileUseObmcCdf), "UseObmcCdf "+msg)
	vk.Assert(vk.Eq(a.TileInterIntraCdf, b.TileInterIntraCdf), "InterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.TileCompRefTypeCdf, b.TileCompRefTypeCdf), "CompRefTypeCdf "+msg)
	vk.Assert(vk.Eq(a.TileCflSignCdf, b.TileCflSignCdf), "CflSignCdf "+msg)
	vk.Assert(vk.Eq(a.TileUniCompRefCdf, b.TileUniCompRefCdf), "UniCompRefCdf "+msg)
	vk.Assert(vk.Eq(a.TileWedgeInterIntraCdf, b.TileWedgeInterIntraCdf), "WedgeInterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.TileCompGroupIdxCdf, b.TileCompGroupIdxCdf), "CompGroupIdxCdf "+msg)
	vk.Assert(vk.Eq(a.TileCompoundIdxCdf, b.TileCompoundIdxCdf), "CompoundIdxCdf "+msg)
	vk.Assert(vk.Eq(a.TileCompoundTypeCdf, b.TileCompoundTypeCdf), "CompoundTypeCdf "+msg)
	vk.Assert(vk.Eq(a.TileInterIntraModeCdf, b.TileInterIntraModeCdf), "InterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.TileWedgeIndexCdf, b.TileWedgeIndexCdf), "WedgeIndexCdf "+msg)
	vk.Assert(vk.Eq(a.TileCflAlphaCdf, b.TileCflAlphaCdf), "CflAlphaCdf "+msg)
	vk.Assert(vk.Eq(a.TileUseWienerCdf, b.TileUseWienerCdf), "UseWienerCdf "+msg)
	vk.Assert(vk.Eq(a.TileUseSgrprojCdf, b.TileUseSgrprojCdf), "UseSgrprojCdf "+msg)
	vk.Assert(vk.Eq(a.TileRestorationTypeCdf, b.TileRestorationTypeCdf), "RestorationTypeCdf "+msg)
}

func sameFrame(a, b *state.State, msg string) {
	vk.Assert(vk.Eq(a.TxbSkipCdf, b.TxbSkipCdf), "TxbSkipCdf "+msg)
	vk.Assert(vk.Eq(a.EobPt16Cdf, b.EobPt16Cdf), "EobPt16Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt32Cdf, b.EobPt32Cdf), "EobPt32Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt64Cdf, b.EobPt64Cdf), "EobPt64Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt128Cdf, b.EobPt128Cdf), "EobPt128Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt256Cdf, b.EobPt256Cdf), "EobPt256Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt512Cdf, b.EobPt512Cdf), "EobPt512Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt1024Cdf, b.EobPt1024Cdf), "EobPt1024Cdf "+msg)
	vk.Assert(vk.Eq(a.EobExtraCdf, b.EobExtraCdf), "EobExtraCdf "+msg)
	vk.Assert(vk.Eq(a.DcSignCdf, b.DcSignCdf), "DcSignCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBaseEobCdf, b.CoeffBaseEobCdf), "CoeffBaseEobCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBaseCdf, b.CoeffBaseCdf), "CoeffBaseCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBrCdf, b.CoeffBrCdf), "CoeffBrCdf "+msg)
	vk.Assert(vk.Eq(a.IntraFrameYModeCdf, b.IntraFrameYModeCdf), "IntraFrameYModeCdf "+msg)
	vk.Assert(vk.Eq(a.YModeCdf, b.YModeCdf), "YModeCdf "+msg)
	vk.Assert(vk.Eq(a.UVModeCflNotAllowedCdf, b.UVModeCflNotAllowedCdf), "UVModeCflNotAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.UVModeCflAllowedCdf, b.UVModeCflAllowedCdf), "UVModeCflAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.AngleDeltaCdf, b.AngleDeltaCdf), "AngleDeltaCdf "+msg)
	vk.Assert(vk.Eq(a.IntrabcCdf, b.IntrabcCdf), "IntrabcCdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW8Cdf, b.PartitionW8Cdf), "PartitionW8Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW16Cdf, b.PartitionW16Cdf), "PartitionW16Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW32Cdf, b.PartitionW32Cdf), "PartitionW32Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW64Cdf, b.PartitionW64Cdf), "PartitionW64Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW128Cdf, b.PartitionW128Cdf), "PartitionW128Cdf "+msg)
	vk.Assert(vk.Eq(a.SegmentIdCdf, b.SegmentIdCdf), "SegmentIdCdf "+msg)
	vk.Assert(vk.Eq(a.SegmentIdPredictedCdf, b.SegmentIdPredictedCdf), "SegmentIdPredictedCdf "+msg)
	vk.Assert(vk.Eq(a.Tx8x8Cdf, b.Tx8x8Cdf), "Tx8x8Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx16x16Cdf, b.Tx16x16Cdf), "Tx16x16Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx32x32Cdf, b.Tx32x32Cdf), "Tx32x32Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx64x64Cdf, b.Tx64x64Cdf), "Tx64x64Cdf "+msg)
	vk.Assert(vk.Eq(a.TxfmSplitCdf, b.TxfmSplitCdf), "TxfmSplitCdf "+msg)
	vk.Assert(vk.Eq(a.FilterIntraModeCdf, b.FilterIntraModeCdf), "FilterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.FilterIntraCdf, b.FilterIntraCdf), "FilterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.InterpFilterCdf, b.InterpFilterCdf), "InterpFilterCdf "+msg)
	vk.Assert(vk.Eq(a.MotionModeCdf, b.MotionModeCdf), "MotionModeCdf "+msg)
	vk.Assert(vk.Eq(a.NewMvCdf, b.NewMvCdf), "NewMvCdf "+msg)
	vk.Assert(vk.Eq(a.ZeroMvCdf, b.ZeroMvCdf), "ZeroMvCdf "+msg)
	vk.Assert(vk.Eq(a.RefMvCdf, b.RefMvCdf), "RefMvCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundModeCdf, b.CompoundModeCdf), "CompoundModeCdf "+msg)
	vk.Assert(vk.Eq(a.DrlModeCdf, b.DrlModeCdf), "DrlModeCdf "+msg)
	vk.Assert(vk.Eq(a.IsInterCdf, b.IsInterCdf), "IsInterCdf "+msg)
	vk.Assert(vk.Eq(a.CompModeCdf, b.CompModeCdf), "CompModeCdf "+msg)
	vk.Assert(vk.Eq(a.SkipModeCdf, b.SkipModeCdf), "SkipModeCdf "+msg)
	vk.Assert(vk.Eq(a.SkipCdf, b.SkipCdf), "SkipCdf "+msg)
	vk.Assert(vk.Eq(a.CompRefCdf, b.CompRefCdf), "CompRefCdf "+msg)
	vk.Assert(vk.Eq(a.CompBwdRefCdf, b.CompBwdRefCdf), "CompBwdRefCdf "+msg)
	vk.Assert(vk.Eq(a.SingleRefCdf, b.SingleRefCdf), "SingleRefCdf "+msg)
	vk.Assert(vk.Eq(a.MvJointCdf, b.MvJointCdf), "MvJointCdf "+msg)
	vk.Assert(vk.Eq(a.MvClassCdf, b.MvClassCdf), "MvClassCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0BitCdf, b.MvClass0BitCdf), "MvClass0BitCdf "+msg)
	vk.Assert(vk.Eq(a.MvFrCdf, b.MvFrCdf), "MvFrCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0FrCdf, b.MvClass0FrCdf), "MvClass0FrCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0HpCdf, b.MvClass0HpCdf), "MvClass0HpCdf "+msg)
	vk.Assert(vk.Eq(a.MvSignCdf, b.MvSignCdf), "MvSignCdf "+msg)
	vk.Assert(vk.Eq(a.MvBitCdf, b.MvBitCdf), "MvBitCdf "+msg)
	vk.Assert(vk.Eq(a.MvHpCdf, b.MvHpCdf), "MvHpCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteYModeCdf, b.PaletteYModeCdf), "PaletteYModeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteUVModeCdf, b.PaletteUVModeCdf), "PaletteUVModeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteUVSizeCdf, b.PaletteUVSizeCdf), "PaletteUVSizeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize2YColorCdf, b.PaletteSize2YColorCdf), "PaletteSize2YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize2UVColorCdf, b.PaletteSize2UVColorCdf), "PaletteSize2UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize3YColorCdf, b.PaletteSize3YColorCdf), "PaletteSize3YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize3UVColorCdf, b.PaletteSize3UVColorCdf), "PaletteSize3UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize4YColorCdf, b.PaletteSize4YColorCdf), "PaletteSize4YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize4UVColorCdf, b.PaletteSize4UVColorCdf), "PaletteSize4UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize5YColorCdf, b.PaletteSize5YColorCdf), "PaletteSize5YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize5UVColorCdf, b.PaletteSize5UVColorCdf), "PaletteSize5UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize6YColorCdf, b.PaletteSize6YColorCdf), "PaletteSize6YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize6UVColorCdf, b.PaletteSize6UVColorCdf), "PaletteSize6UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize7YColorCdf, b.PaletteSize7YColorCdf), "PaletteSize7YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize7UVColorCdf, b.PaletteSize7UVColorCdf), "PaletteSize7UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize8YColorCdf, b.PaletteSize8YColorCdf), "PaletteSize8YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize8UVColorCdf, b.PaletteSize8UVColorCdf), "PaletteSize8UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaQCdf, b.DeltaQCdf), "DeltaQCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaLFCdf, b.DeltaLFCdf), "DeltaLFCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaLFMultiCdf, b.DeltaLFMultiCdf), "DeltaLFMultiCdf "+msg)
	vk.Assert(vk.Eq(a.IntraTxTypeSet1Cdf, b.IntraTxTypeSet1Cdf), "IntraTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.IntraTxTypeSet2Cdf, b.IntraTxTypeSet2Cdf), "IntraTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet1Cdf, b.InterTxTypeSet1Cdf), "InterTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet2Cdf, b.InterTxTypeSet2Cdf), "InterTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet3Cdf, b.InterTxTypeSet3Cdf), "InterTxTypeSet3Cdf "+msg)
	vk.Assert(vk.Eq(a.UseObmcCdf, b.UseObmcCdf), "UseObmcCdf "+msg)
	vk.Assert(vk.Eq(a.InterIntraCdf, b.InterIntraCdf), "InterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.CompRefTypeCdf, b.CompRefTypeCdf), "CompRefTypeCdf "+msg)
	vk.Assert(vk.Eq(a.CflSignCdf, b.CflSignCdf), "CflSignCdf "+msg)
	vk.Assert(vk.Eq(a.UniCompRefCdf, b.UniCompRefCdf), "UniCompRefCdf "+msg)
	vk.Assert(vk.Eq(a.WedgeInterIntraCdf, b.WedgeInterIntraCdf), "WedgeInterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.CompGroupIdxCdf, b.CompGroupIdxCdf), "CompGroupIdxCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundIdxCdf, b.CompoundIdxCdf), "CompoundIdxCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundTypeCdf, b.CompoundTypeCdf), "CompoundTypeCdf "+msg)
	vk.Assert(vk.Eq(a.InterIntraModeCdf, b.InterIntraModeCdf), "InterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.WedgeIndexCdf, b.WedgeIndexCdf), "WedgeIndexCdf "+msg)
	vk.Assert(vk.Eq(a.CflAlphaCdf, b.CflAlphaCdf), "CflAlphaCdf "+msg)
	vk.Assert(vk.Eq(a.UseWienerCdf, b.UseWienerCdf), "UseWienerCdf "+msg)
	vk.Assert(vk.Eq(a.UseSgrprojCdf, b.UseSgrprojCdf), "UseSgrprojCdf "+msg)
	vk.Assert(vk.Eq(a.RestorationTypeCdf, b.RestorationTypeCdf), "RestorationTypeCdf "+msg)
}

func sameSaved(a, b *state.State, msg string) {
	vk.Assert(vk.Eq(a.SavedTxbSkipCdf, b.SavedTxbSkipCdf), "TxbSkipCdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt16Cdf, b.SavedEobPt16Cdf), "EobPt16Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt32Cdf, b.SavedEobPt32Cdf), "EobPt32Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt64Cdf, b.SavedEobPt64Cdf), "EobPt64Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt128Cdf, b.SavedEobPt128Cdf), "EobPt128Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt256Cdf, b.SavedEobPt256Cdf), "EobPt256Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt512Cdf, b.SavedEobPt512Cdf), "EobPt512Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt1024Cdf, b.SavedEobPt1024Cdf), "EobPt1024Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobExtraCdf, b.SavedEobExtraCdf), "EobExtraCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDcSignCdf, b.SavedDcSignCdf), "DcSignCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCoeffBaseEobCdf, b.SavedCoeffBaseEobCdf), "CoeffBaseEobCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCoeffBaseCdf, b.SavedCoeffBaseCdf), "CoeffBaseCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCoeffBrCdf, b.SavedCoeffBrCdf), "CoeffBrCdf "+msg)
	vk.Assert(vk.Eq(a.SavedIntraFrameYModeCdf, b.SavedIntraFrameYModeCdf), "IntraFrameYModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedYModeCdf, b.SavedYModeCdf), "YModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUVModeCflNotAllowedCdf, b.SavedUVModeCflNotAllowedCdf), "UVModeCflNotAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUVModeCflAllowedCdf, b.SavedUVModeCflAllowedCdf), "UVModeCflAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.SavedAngleDeltaCdf, b.SavedAngleDeltaCdf), "AngleDeltaCdf "+msg)
	vk.Assert(vk.Eq(a.SavedIntrabcCdf, b.SavedIntrabcCdf), "IntrabcCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW8Cdf, b.SavedPartitionW8Cdf), "PartitionW8Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW16Cdf, b.SavedPartitionW16Cdf), "PartitionW16Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW32Cdf, b.SavedPartitionW32Cdf), "PartitionW32Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW64Cdf, b.SavedPartitionW64Cdf), "PartitionW64Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW128Cdf, b.SavedPartitionW128Cdf), "PartitionW128Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedSegmentIdCdf, b.SavedSegmentIdCdf), "SegmentIdCdf "+msg)
	vk.Assert(vk.Eq(a.SavedSegmentIdPredictedCdf, b.SavedSegmentIdPredictedCdf), "SegmentIdPredictedCdf "+msg)
	vk.Assert(vk.Eq(a.SavedTx8x8Cdf, b.SavedTx8x8Cdf), "Tx8x8Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedTx16x16Cdf, b.SavedTx16x16Cdf), "Tx16x16Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedTx32x32Cdf, b.SavedTx32x32Cdf), "Tx32x32Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedTx64x64Cdf, b.SavedTx64x64Cdf), "Tx64x64Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedTxfmSplitCdf, b.SavedTxfmSplitCdf), "TxfmSplitCdf "+msg)
	vk.Assert(vk.Eq(a.SavedFilterIntraModeCdf, b.SavedFilterIntraModeCdf), "FilterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedFilterIntraCdf, b.SavedFilterIntraCdf), "FilterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterpFilterCdf, b.SavedInterpFilterCdf), "InterpFilterCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMotionModeCdf, b.SavedMotionModeCdf), "MotionModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedNewMvCdf, b.SavedNewMvCdf), "NewMvCdf "+msg)
	vk.Assert(vk.Eq(a.SavedZeroMvCdf, b.SavedZeroMvCdf), "ZeroMvCdf "+msg)
	vk.Assert(vk.Eq(a.SavedRefMvCdf, b.SavedRefMvCdf), "RefMvCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompoundModeCdf, b.SavedCompoundModeCdf), "CompoundModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDrlModeCdf, b.SavedDrlModeCdf), "DrlModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedIsInterCdf, b.SavedIsInterCdf), "IsInterCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompModeCdf, b.SavedCompModeCdf), "CompModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedSkipModeCdf, b.SavedSkipModeCdf), "SkipModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedSkipCdf, b.SavedSkipCdf), "SkipCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompRefCdf, b.SavedCompRefCdf), "CompRefCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompBwdRefCdf, b.SavedCompBwdRefCdf), "CompBwdRefCdf "+msg)
	vk.Assert(vk.Eq(a.SavedSingleRefCdf, b.SavedSingleRefCdf), "SingleRefCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvJointCdf, b.SavedMvJointCdf), "MvJointCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvClassCdf, b.SavedMvClassCdf), "MvClassCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvClass0BitCdf, b.SavedMvClass0BitCdf), "MvClass0BitCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvFrCdf, b.SavedMvFrCdf), "MvFrCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvClass0FrCdf, b.SavedMvClass0FrCdf), "MvClass0FrCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvClass0HpCdf, b.SavedMvClass0HpCdf), "MvClass0HpCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvSignCdf, b.SavedMvSignCdf), "MvSignCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvBitCdf, b.SavedMvBitCdf), "MvBitCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvHpCdf, b.SavedMvHpCdf), "MvHpCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteYModeCdf, b.SavedPaletteYModeCdf), "PaletteYModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteUVModeCdf, b.SavedPaletteUVModeCdf), "PaletteUVModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteUVSizeCdf, b.SavedPaletteUVSizeCdf), "PaletteUVSizeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize2YColorCdf, b.SavedPaletteSize2YColorCdf), "PaletteSize2YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize2UVColorCdf, b.SavedPaletteSize2UVColorCdf), "PaletteSize2UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize3YColorCdf, b.SavedPaletteSize3YColorCdf), "PaletteSize3YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize3UVColorCdf, b.SavedPaletteSize3UVColorCdf), "PaletteSize3UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize4YColorCdf, b.SavedPaletteSize4YColorCdf), "PaletteSize4YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize4UVColorCdf, b.SavedPaletteSize4UVColorCdf), "PaletteSize4UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize5YColorCdf, b.SavedPaletteSize5YColorCdf), "PaletteSize5YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize5UVColorCdf, b.SavedPaletteSize5UVColorCdf), "PaletteSize5UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize6YColorCdf, b.SavedPaletteSize6YColorCdf), "PaletteSize6YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize6UVColorCdf, b.SavedPaletteSize6UVColorCdf), "PaletteSize6UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize7YColorCdf, b.SavedPaletteSize7YColorCdf), "PaletteSize7YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize7UVColorCdf, b.SavedPaletteSize7UVColorCdf), "PaletteSize7UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize8YColorCdf, b.SavedPaletteSize8YColorCdf), "PaletteSize8YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize8UVColorCdf, b.SavedPaletteSize8UVColorCdf), "PaletteSize8UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDeltaQCdf, b.SavedDeltaQCdf), "DeltaQCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDeltaLFCdf, b.SavedDeltaLFCdf), "DeltaLFCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDeltaLFMultiCdf, b.SavedDeltaLFMultiCdf), "DeltaLFMultiCdf "+msg)
	vk.Assert(vk.Eq(a.SavedIntraTxTypeSet1Cdf, b.SavedIntraTxTypeSet1Cdf), "IntraTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedIntraTxTypeSet2Cdf, b.SavedIntraTxTypeSet2Cdf), "IntraTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterTxTypeSet1Cdf, b.SavedInterTxTypeSet1Cdf), "InterTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterTxTypeSet2Cdf, b.SavedInterTxTypeSet2Cdf), "InterTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterTxTypeSet3Cdf, b.SavedInterTxTypeSet3Cdf), "InterTxTypeSet3Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedUseObmcCdf, b.SavedUseObmcCdf), "UseObmcCdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterIntraCdf, b.SavedInterIntraCdf), "InterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompRefTypeCdf, b.SavedCompRefTypeCdf), "CompRefTypeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCflSignCdf, b.SavedCflSignCdf), "CflSignCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUniCompRefCdf, b.SavedUniCompRefCdf), "UniCompRefCdf "+msg)
	vk.Assert(vk.Eq(a.SavedWedgeInterIntraCdf, b.SavedWedgeInterIntraCdf), "WedgeInterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompGroupIdxCdf, b.SavedCompGroupIdxCdf), "CompGroupIdxCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompoundIdxCdf, b.SavedCompoundIdxCdf), "CompoundIdxCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompoundTypeCdf, b.SavedCompoundTypeCdf), "CompoundTypeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterIntraModeCdf, b.SavedInterIntraModeCdf), "InterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedWedgeIndexCdf, b.SavedWedgeIndexCdf), "WedgeIndexCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCflAlphaCdf, b.SavedCflAlphaCdf), "CflAlphaCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUseWienerCdf, b.SavedUseWienerCdf), "UseWienerCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUseSgrprojCdf, b.SavedUseSgrprojCdf), "UseSgrprojCdf "+msg)
	vk.Assert(vk.Eq(a.SavedRestorationTypeCdf, b.SavedRestorationTypeCdf), "RestorationTypeCdf "+msg)
}

func frameIsSaved(a, b *state.State, msg string) {
	vk.Assert(vk.Eq(a.TxbSkipCdf, b.SavedTxbSkipCdf), "TxbSkipCdf "+msg)
	vk.Assert(vk.Eq(a.EobPt16Cdf, b.SavedEobPt16Cdf), "EobPt16Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt32Cdf, b.SavedEobPt32Cdf), "EobPt32Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt64Cdf, b.SavedEobPt64Cdf), "EobPt64Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt128Cdf, b.SavedEobPt128Cdf), "EobPt128Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt256Cdf, b.SavedEobPt256Cdf), "EobPt256Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt512Cdf, b.SavedEobPt512Cdf), "EobPt512Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt1024Cdf, b.SavedEobPt1024Cdf), "EobPt1024Cdf "+msg)
	vk.Assert(vk.Eq(a.EobExtraCdf, b.SavedEobExtraCdf), "EobExtraCdf "+msg)
	vk.Assert(vk.Eq(a.DcSignCdf, b.SavedDcSignCdf), "DcSignCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBaseEobCdf, b.SavedCoeffBaseEobCdf), "CoeffBaseEobCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBaseCdf, b.SavedCoeffBaseCdf), "CoeffBaseCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBrCdf, b.SavedCoeffBrCdf), "CoeffBrCdf "+msg)
	vk.Assert(vk.Eq(a.IntraFrameYModeCdf, b.SavedIntraFrameYModeCdf), "IntraFrameYModeCdf "+msg)
	vk.Assert(vk.Eq(a.YModeCdf, b.SavedYModeCdf), "YModeCdf "+msg)
	vk.Assert(vk.Eq(a.UVModeCflNotAllowedCdf, b.SavedUVModeCflNotAllowedCdf), "UVModeCflNotAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.UVModeCflAllowedCdf, b.SavedUVModeCflAllowedCdf), "UVModeCflAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.AngleDeltaCdf, b.SavedAngleDeltaCdf), "AngleDeltaCdf "+msg)
	vk.Assert(vk.Eq(a.IntrabcCdf, b.SavedIntrabcCdf), "IntrabcCdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW8Cdf, b.SavedPartitionW8Cdf), "PartitionW8Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW16Cdf, b.SavedPartitionW16Cdf), "PartitionW16Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW32Cdf, b.SavedPartitionW32Cdf), "PartitionW32Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW64Cdf, b.SavedPartitionW64Cdf), "PartitionW64Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW128Cdf, b.SavedPartitionW128Cdf), "PartitionW128Cdf "+msg)
	vk.Assert(vk.Eq(a.SegmentIdCdf, b.SavedSegmentIdCdf), "SegmentIdCdf "+msg)
	vk.Assert(vk.Eq(a.SegmentIdPredictedCdf, b.SavedSegmentIdPredictedCdf), "SegmentIdPredictedCdf "+msg)
	vk.Assert(vk.Eq(a.Tx8x8Cdf, b.SavedTx8x8Cdf), "Tx8x8Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx16x16Cdf, b.SavedTx16x16Cdf), "Tx16x16Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx32x32Cdf, b.SavedTx32x32Cdf), "Tx32x32Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx64x64Cdf, b.SavedTx64x64Cdf), "Tx64x64Cdf "+msg)
	vk.Assert(vk.Eq(a.TxfmSplitCdf, b.SavedTxfmSplitCdf), "TxfmSplitCdf "+msg)
	vk.Assert(vk.Eq(a.FilterIntraModeCdf, b.SavedFilterIntraModeCdf), "FilterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.FilterIntraCdf, b.SavedFilterIntraCdf), "FilterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.InterpFilterCdf, b.SavedInterpFilterCdf), "InterpFilterCdf "+msg)
	vk.Assert(vk.Eq(a.MotionModeCdf, b.SavedMotionModeCdf), "MotionModeCdf "+msg)
	vk.Assert(vk.Eq(a.NewMvCdf, b.SavedNewMvCdf), "NewMvCdf "+msg)
	vk.Assert(vk.Eq(a.ZeroMvCdf, b.SavedZeroMvCdf), "ZeroMvCdf "+msg)
	vk.Assert(vk.Eq(a.RefMvCdf, b.SavedRefMvCdf), "RefMvCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundModeCdf, b.SavedCompoundModeCdf), "CompoundModeCdf "+msg)
	vk.Assert(vk.Eq(a.DrlModeCdf, b.SavedDrlModeCdf), "DrlModeCdf "+msg)
	vk.Assert(vk.Eq(a.IsInterCdf, b.SavedIsInterCdf), "IsInterCdf "+msg)
	vk.Assert(vk.Eq(a.CompModeCdf, b.SavedCompModeCdf), "CompModeCdf "+msg)
	vk.Assert(vk.Eq(a.SkipModeCdf, b.SavedSkipModeCdf), "SkipModeCdf "+msg)
	vk.Assert(vk.Eq(a.SkipCdf, b.SavedSkipCdf), "SkipCdf "+msg)
	vk.Assert(vk.Eq(a.CompRefCdf, b.SavedCompRefCdf), "CompRefCdf "+msg)
	vk.Assert(vk.Eq(a.CompBwdRefCdf, b.SavedCompBwdRefCdf), "CompBwdRefCdf "+msg)
	vk.Assert(vk.Eq(a.SingleRefCdf, b.SavedSingleRefCdf), "SingleRefCdf "+msg)
	vk.Assert(vk.Eq(a.MvJointCdf, b.SavedMvJointCdf), "MvJointCdf "+msg)
	vk.Assert(vk.Eq(a.MvClassCdf, b.SavedMvClassCdf), "MvClassCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0BitCdf, b.SavedMvClass0BitCdf), "MvClass0BitCdf "+msg)
	vk.Assert(vk.Eq(a.MvFrCdf, b.SavedMvFrCdf), "MvFrCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0FrCdf, b.SavedMvClass0FrCdf), "MvClass0FrCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0HpCdf, b.SavedMvClass0HpCdf), "MvClass0HpCdf "+msg)
	vk.Assert(vk.Eq(a.MvSignCdf, b.SavedMvSignCdf), "MvSignCdf "+msg)
	vk.Assert(vk.Eq(a.MvBitCdf, b.SavedMvBitCdf), "MvBitCdf "+msg)
	vk.Assert(vk.Eq(a.MvHpCdf, b.SavedMvHpCdf), "MvHpCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteYModeCdf, b.SavedPaletteYModeCdf), "PaletteYModeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteUVModeCdf, b.SavedPaletteUVModeCdf), "PaletteUVModeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteUVSizeCdf, b.SavedPaletteUVSizeCdf), "PaletteUVSizeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize2YColorCdf, b.SavedPaletteSize2YColorCdf), "PaletteSize2YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize2UVColorCdf, b.SavedPaletteSize2UVColorCdf), "PaletteSize2UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize3YColorCdf, b.SavedPaletteSize3YColorCdf), "PaletteSize3YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize3UVColorCdf, b.SavedPaletteSize3UVColorCdf), "PaletteSize3UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize4YColorCdf, b.SavedPaletteSize4YColorCdf), "PaletteSize4YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize4UVColorCdf, b.SavedPaletteSize4UVColorCdf), "PaletteSize4UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize5YColorCdf, b.SavedPaletteSize5YColorCdf), "PaletteSize5YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize5UVColorCdf, b.SavedPaletteSize5UVColorCdf), "PaletteSize5UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize6YColorCdf, b.SavedPaletteSize6YColorCdf), "PaletteSize6YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize6UVColorCdf, b.SavedPaletteSize6UVColorCdf), "PaletteSize6UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize7YColorCdf, b.SavedPaletteSize7YColorCdf), "PaletteSize7YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize7UVColorCdf, b.SavedPaletteSize7UVColorCdf), "PaletteSize7UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize8YColorCdf, b.SavedPaletteSize8YColorCdf), "PaletteSize8YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize8UVColorCdf, b.SavedPaletteSize8UVColorCdf), "PaletteSize8UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaQCdf, b.SavedDeltaQCdf), "DeltaQCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaLFCdf, b.SavedDeltaLFCdf), "DeltaLFCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaLFMultiCdf, b.SavedDeltaLFMultiCdf), "DeltaLFMultiCdf "+msg)
	vk.Assert(vk.Eq(a.IntraTxTypeSet1Cdf, b.SavedIntraTxTypeSet1Cdf), "IntraTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.IntraTxTypeSet2Cdf, b.SavedIntraTxTypeSet2Cdf), "IntraTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet1Cdf, b.SavedInterTxTypeSet1Cdf), "InterTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet2Cdf, b.SavedInterTxTypeSet2Cdf), "InterTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet3Cdf, b.SavedInterTxTypeSet3Cdf), "InterTxTypeSet3Cdf "+msg)
	vk.Assert(vk.Eq(a.UseObmcCdf, b.SavedUseObmcCdf), "UseObmcCdf "+msg)
	vk.Assert(vk.Eq(a.InterIntraCdf, b.SavedInterIntraCdf), "InterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.CompRefTypeCdf, b.SavedCompRefTypeCdf), "CompRefTypeCdf "+msg)
	vk.Assert(vk.Eq(a.CflSignCdf, b.SavedCflSignCdf), "CflSignCdf "+msg)
	vk.Assert(vk.Eq(a.UniCompRefCdf, b.SavedUniCompRefCdf), "UniCompRefCdf "+msg)
	vk.Assert(vk.Eq(a.WedgeInterIntraCdf, b.SavedWedgeInterIntraCdf), "WedgeInterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.CompGroupIdxCdf, b.SavedCompGroupIdxCdf), "CompGroupIdxCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundIdxCdf, b.SavedCompoundIdxCdf), "CompoundIdxCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundTypeCdf, b.SavedCompoundTypeCdf), "CompoundTypeCdf "+msg)
	vk.Assert(vk.Eq(a.InterIntraModeCdf, b.SavedInterIntraModeCdf), "InterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.WedgeIndexCdf, b.SavedWedgeIndexCdf), "WedgeIndexCdf "+msg)
	vk.Assert(vk.Eq(a.CflAlphaCdf, b.SavedCflAlphaCdf), "CflAlphaCdf "+msg)
	vk.Assert(vk.Eq(a.UseWienerCdf, b.SavedUseWienerCdf), "UseWienerCdf "+msg)
	vk.Assert(vk.Eq(a.UseSgrprojCdf, b.SavedUseSgrprojCdf), "UseSgrprojCdf "+msg)
	vk.Assert(vk.Eq(a.RestorationTypeCdf, b.SavedRestorationTypeCdf), "RestorationTypeCdf "+msg)
}

func savedIsTile(a, b *state.State, msg string) {
	vk.Assert(vk.Eq(a.SavedTxbSkipCdf, b.TileTxbSkipCdf), "TxbSkipCdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt16Cdf, b.TileEobPt16Cdf), "EobPt16Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt32Cdf, b.TileEobPt32Cdf), "EobPt32Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt64Cdf, b.TileEobPt64Cdf), "EobPt64Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt128Cdf, b.TileEobPt128Cdf), "EobPt128Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt256Cdf, b.TileEobPt256Cdf), "EobPt256Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt512Cdf, b.TileEobPt512Cdf), "EobPt512Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobPt1024Cdf, b.TileEobPt1024Cdf), "EobPt1024Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedEobExtraCdf, b.TileEobExtraCdf), "EobExtraCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDcSignCdf, b.TileDcSignCdf), "DcSignCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCoeffBaseEobCdf, b.TileCoeffBaseEobCdf), "CoeffBaseEobCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCoeffBaseCdf, b.TileCoeffBaseCdf), "CoeffBaseCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCoeffBrCdf, b.TileCoeffBrCdf), "CoeffBrCdf "+msg)
	vk.Assert(vk.Eq(a.SavedIntraFrameYModeCdf, b.TileIntraFrameYModeCdf), "IntraFrameYModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedYModeCdf, b.TileYModeCdf), "YModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUVModeCflNotAllowedCdf, b.TileUVModeCflNotAllowedCdf), "UVModeCflNotAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUVModeCflAllowedCdf, b.TileUVModeCflAllowedCdf), "UVModeCflAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.SavedAngleDeltaCdf, b.TileAngleDeltaCdf), "AngleDeltaCdf "+msg)
	vk.Assert(vk.Eq(a.SavedIntrabcCdf, b.TileIntrabcCdf), "IntrabcCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW8Cdf, b.TilePartitionW8Cdf), "PartitionW8Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW16Cdf, b.TilePartitionW16Cdf), "PartitionW16Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW32Cdf, b.TilePartitionW32Cdf), "PartitionW32Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW64Cdf, b.TilePartitionW64Cdf), "PartitionW64Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedPartitionW128Cdf, b.TilePartitionW128Cdf), "PartitionW128Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedSegmentIdCdf, b.TileSegmentIdCdf), "SegmentIdCdf "+msg)
	vk.Assert(vk.Eq(a.SavedSegmentIdPredictedCdf, b.TileSegmentIdPredictedCdf), "SegmentIdPredictedCdf "+msg)
	vk.Assert(vk.Eq(a.SavedTx8x8Cdf, b.TileTx8x8Cdf), "Tx8x8Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedTx16x16Cdf, b.TileTx16x16Cdf), "Tx16x16Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedTx32x32Cdf, b.TileTx32x32Cdf), "Tx32x32Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedTx64x64Cdf, b.TileTx64x64Cdf), "Tx64x64Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedTxfmSplitCdf, b.TileTxfmSplitCdf), "TxfmSplitCdf "+msg)
	vk.Assert(vk.Eq(a.SavedFilterIntraModeCdf, b.TileFilterIntraModeCdf), "FilterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedFilterIntraCdf, b.TileFilterIntraCdf), "FilterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterpFilterCdf, b.TileInterpFilterCdf), "InterpFilterCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMotionModeCdf, b.TileMotionModeCdf), "MotionModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedNewMvCdf, b.TileNewMvCdf), "NewMvCdf "+msg)
	vk.Assert(vk.Eq(a.SavedZeroMvCdf, b.TileZeroMvCdf), "ZeroMvCdf "+msg)
	vk.Assert(vk.Eq(a.SavedRefMvCdf, b.TileRefMvCdf), "RefMvCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompoundModeCdf, b.TileCompoundModeCdf), "CompoundModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDrlModeCdf, b.TileDrlModeCdf), "DrlModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedIsInterCdf, b.TileIsInterCdf), "IsInterCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompModeCdf, b.TileCompModeCdf), "CompModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedSkipModeCdf, b.TileSkipModeCdf), "SkipModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedSkipCdf, b.TileSkipCdf), "SkipCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompRefCdf, b.TileCompRefCdf), "CompRefCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompBwdRefCdf, b.TileCompBwdRefCdf), "CompBwdRefCdf "+msg)
	vk.Assert(vk.Eq(a.SavedSingleRefCdf, b.TileSingleRefCdf), "SingleRefCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvJointCdf, b.TileMvJointCdf), "MvJointCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvClassCdf, b.TileMvClassCdf), "MvClassCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvClass0BitCdf, b.TileMvClass0BitCdf), "MvClass0BitCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvFrCdf, b.TileMvFrCdf), "MvFrCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvClass0FrCdf, b.TileMvClass0FrCdf), "MvClass0FrCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvClass0HpCdf, b.TileMvClass0HpCdf), "MvClass0HpCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvSignCdf, b.TileMvSignCdf), "MvSignCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvBitCdf, b.TileMvBitCdf), "MvBitCdf "+msg)
	vk.Assert(vk.Eq(a.SavedMvHpCdf, b.TileMvHpCdf), "MvHpCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteYModeCdf, b.TilePaletteYModeCdf), "PaletteYModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteUVModeCdf, b.TilePaletteUVModeCdf), "PaletteUVModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteUVSizeCdf, b.TilePaletteUVSizeCdf), "PaletteUVSizeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize2YColorCdf, b.TilePaletteSize2YColorCdf), "PaletteSize2YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize2UVColorCdf, b.TilePaletteSize2UVColorCdf), "PaletteSize2UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize3YColorCdf, b.TilePaletteSize3YColorCdf), "PaletteSize3YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize3UVColorCdf, b.TilePaletteSize3UVColorCdf), "PaletteSize3UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize4YColorCdf, b.TilePaletteSize4YColorCdf), "PaletteSize4YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize4UVColorCdf, b.TilePaletteSize4UVColorCdf), "PaletteSize4UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize5YColorCdf, b.TilePaletteSize5YColorCdf), "PaletteSize5YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize5UVColorCdf, b.TilePaletteSize5UVColorCdf), "PaletteSize5UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize6YColorCdf, b.TilePaletteSize6YColorCdf), "PaletteSize6YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize6UVColorCdf, b.TilePaletteSize6UVColorCdf), "PaletteSize6UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize7YColorCdf, b.TilePaletteSize7YColorCdf), "PaletteSize7YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize7UVColorCdf, b.TilePaletteSize7UVColorCdf), "PaletteSize7UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize8YColorCdf, b.TilePaletteSize8YColorCdf), "PaletteSize8YColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedPaletteSize8UVColorCdf, b.TilePaletteSize8UVColorCdf), "PaletteSize8UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDeltaQCdf, b.TileDeltaQCdf), "DeltaQCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDeltaLFCdf, b.TileDeltaLFCdf), "DeltaLFCdf "+msg)
	vk.Assert(vk.Eq(a.SavedDeltaLFMultiCdf, b.TileDeltaLFMultiCdf), "DeltaLFMultiCdf "+msg)
	vk.Assert(vk.Eq(a.SavedIntraTxTypeSet1Cdf, b.TileIntraTxTypeSet1Cdf), "IntraTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedIntraTxTypeSet2Cdf, b.TileIntraTxTypeSet2Cdf), "IntraTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterTxTypeSet1Cdf, b.TileInterTxTypeSet1Cdf), "InterTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterTxTypeSet2Cdf, b.TileInterTxTypeSet2Cdf), "InterTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterTxTypeSet3Cdf, b.TileInterTxTypeSet3Cdf), "InterTxTypeSet3Cdf "+msg)
	vk.Assert(vk.Eq(a.SavedUseObmcCdf, b.TileUseObmcCdf), "UseObmcCdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterIntraCdf, b.TileInterIntraCdf), "InterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompRefTypeCdf, b.TileCompRefTypeCdf), "CompRefTypeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCflSignCdf, b.TileCflSignCdf), "CflSignCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUniCompRefCdf, b.TileUniCompRefCdf), "UniCompRefCdf "+msg)
	vk.Assert(vk.Eq(a.SavedWedgeInterIntraCdf, b.TileWedgeInterIntraCdf), "WedgeInterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompGroupIdxCdf, b.TileCompGroupIdxCdf), "CompGroupIdxCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompoundIdxCdf, b.TileCompoundIdxCdf), "CompoundIdxCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCompoundTypeCdf, b.TileCompoundTypeCdf), "CompoundTypeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedInterIntraModeCdf, b.TileInterIntraModeCdf), "InterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.SavedWedgeIndexCdf, b.TileWedgeIndexCdf), "WedgeIndexCdf "+msg)
	vk.Assert(vk.Eq(a.SavedCflAlphaCdf, b.TileCflAlphaCdf), "CflAlphaCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUseWienerCdf, b.TileUseWienerCdf), "UseWienerCdf "+msg)
	vk.Assert(vk.Eq(a.SavedUseSgrprojCdf, b.TileUseSgrprojCdf), "UseSgrprojCdf "+msg)
	vk.Assert(vk.Eq(a.SavedRestorationTypeCdf, b.TileRestorationTypeCdf), "RestorationTypeCdf "+msg)
}
