// Code generated by tools/cdfgen.py; DO NOT EDIT.

package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/vk"
)

func table1() []int { return make([]int, 3) }

func table2() [][]int { return [][]int{make([]int, 3), make([]int, 4)} }

func table3() [][][]int { return [][][]int{table2(), table2()} }

func table4() [][][][]int { return [][][][]int{table3()} }

func fill(s *state.State, name string) {
	s.TxbSkipCdf = table3()
	vk.Fill(name+"TxbSkipCdf", &s.TxbSkipCdf, 0, 1<<15)
	s.EobPt16Cdf = table3()
	vk.Fill(name+"EobPt16Cdf", &s.EobPt16Cdf, 0, 1<<15)
	s.EobPt32Cdf = table3()
	vk.Fill(name+"EobPt32Cdf", &s.EobPt32Cdf, 0, 1<<15)
	s.EobPt64Cdf = table3()
	vk.Fill(name+"EobPt64Cdf", &s.EobPt64Cdf, 0, 1<<15)
	s.EobPt128Cdf = table3()
	vk.Fill(name+"EobPt128Cdf", &s.EobPt128Cdf, 0, 1<<15)
	s.EobPt256Cdf = table3()
	vk.Fill(name+"EobPt256Cdf", &s.EobPt256Cdf, 0, 1<<15)
	s.EobPt512Cdf = table2()
	vk.Fill(name+"EobPt512Cdf", &s.EobPt512Cdf, 0, 1<<15)
	s.EobPt1024Cdf = table2()
	vk.Fill(name+"EobPt1024Cdf", &s.EobPt1024Cdf, 0, 1<<15)
	s.EobExtraCdf = table4()
	vk.Fill(name+"EobExtraCdf", &s.EobExtraCdf, 0, 1<<15)
	s.DcSignCdf = table3()
	vk.Fill(name+"DcSignCdf", &s.DcSignCdf, 0, 1<<15)
	s.CoeffBaseEobCdf = table4()
	vk.Fill(name+"CoeffBaseEobCdf", &s.CoeffBaseEobCdf, 0, 1<<15)
	s.CoeffBaseCdf = table4()
	vk.Fill(name+"CoeffBaseCdf", &s.CoeffBaseCdf, 0, 1<<15)
	s.CoeffBrCdf = table4()
	vk.Fill(name+"CoeffBrCdf", &s.CoeffBrCdf, 0, 1<<15)
	s.IntraFrameYModeCdf = table3()
	vk.Fill(name+"IntraFrameYModeCdf", &s.IntraFrameYModeCdf, 0, 1<<15)
	s.YModeCdf = table2()
	vk.Fill(name+"YModeCdf", &s.YModeCdf, 0, 1<<15)
	s.UVModeCflNotAllowedCdf = table2()
	vk.Fill(name+"UVModeCflNotAllowedCdf", &s.UVModeCflNotAllowedCdf, 0, 1<<15)
	s.UVModeCflAllowedCdf = table2()
	vk.Fill(name+"UVModeCflAllowedCdf", &s.UVModeCflAllowedCdf, 0, 1<<15)
	s.AngleDeltaCdf = table2()
	vk.Fill(name+"AngleDeltaCdf", &s.AngleDeltaCdf, 0, 1<<15)
	s.IntrabcCdf = table1()
	vk.Fill(name+"IntrabcCdf", &s.IntrabcCdf, 0, 1<<15)
	s.PartitionW8Cdf = table2()
	vk.Fill(name+"PartitionW8Cdf", &s.PartitionW8Cdf, 0, 1<<15)
	s.PartitionW16Cdf = table2()
	vk.Fill(name+"PartitionW16Cdf", &s.PartitionW16Cdf, 0, 1<<15)
	s.PartitionW32Cdf = table2()
	vk.Fill(name+"PartitionW32Cdf", &s.PartitionW32Cdf, 0, 1<<15)
	s.PartitionW64Cdf = table2()
	vk.Fill(name+"PartitionW64Cdf", &s.PartitionW64Cdf, 0, 1<<15)
	s.PartitionW128Cdf = table2()
	vk.Fill(name+"PartitionW128Cdf", &s.PartitionW128Cdf, 0, 1<<15)
	s.SegmentIdCdf = table2()
	vk.Fill(name+"SegmentIdCdf", &s.SegmentIdCdf, 0, 1<<15)
	s.SegmentIdPredictedCdf = table2()
	vk.Fill(name+"SegmentIdPredictedCdf", &s.SegmentIdPredictedCdf, 0, 1<<15)
	s.Tx8x8Cdf = table2()
	vk.Fill(name+"Tx8x8Cdf", &s.Tx8x8Cdf, 0, 1<<15)
	s.Tx16x16Cdf = table2()
	vk.Fill(name+"Tx16x16Cdf", &s.Tx16x16Cdf, 0, 1<<15)
	s.Tx32x32Cdf = table2()
	vk.Fill(name+"Tx32x32Cdf", &s.Tx32x32Cdf, 0, 1<<15)
	s.Tx64x64Cdf = table2()
	vk.Fill(name+"Tx64x64Cdf", &s.Tx64x64Cdf, 0, 1<<15)
	s.TxfmSplitCdf = table2()
	vk.Fill(name+"TxfmSplitCdf", &s.TxfmSplitCdf, 0, 1<<15)
	s.FilterIntraModeCdf = table1()
	vk.Fill(name+"FilterIntraModeCdf", &s.FilterIntraModeCdf, 0, 1<<15)
	s.FilterIntraCdf = table2()
	vk.Fill(name+"FilterIntraCdf", &s.FilterIntraCdf, 0, 1<<15)
	s.InterpFilterCdf = table2()
	vk.Fill(name+"InterpFilterCdf", &s.InterpFilterCdf, 0, 1<<15)
	s.MotionModeCdf = table2()
	vk.Fill(name+"MotionModeCdf", &s.MotionModeCdf, 0, 1<<15)
	s.NewMvCdf = table2()
	vk.Fill(name+"NewMvCdf", &s.NewMvCdf, 0, 1<<15)
	s.ZeroMvCdf = table2()
	vk.Fill(name+"ZeroMvCdf", &s.ZeroMvCdf, 0, 1<<15)
	s.RefMvCdf = table2()
	vk.Fill(name+"RefMvCdf", &s.RefMvCdf, 0, 1<<15)
	s.CompoundModeCdf = table2()
	vk.Fill(name+"CompoundModeCdf", &s.CompoundModeCdf, 0, 1<<15)
	s.DrlModeCdf = table2()
	vk.Fill(name+"DrlModeCdf", &s.DrlModeCdf, 0, 1<<15)
	s.IsInterCdf = table2()
	vk.Fill(name+"IsInterCdf", &s.IsInterCdf, 0, 1<<15)
	s.CompModeCdf = table2()
	vk.Fill(name+"CompModeCdf", &s.CompModeCdf, 0, 1<<15)
	s.SkipModeCdf = table2()
	vk.Fill(name+"SkipModeCdf", &s.SkipModeCdf, 0, 1<<15)
	s.SkipCdf = table2()
	vk.Fill(name+"SkipCdf", &s.SkipCdf, 0, 1<<15)
	s.CompRefCdf = table3()
	vk.Fill(name+"CompRefCdf", &s.CompRefCdf, 0, 1<<15)
	s.CompBwdRefCdf = table3()
	vk.Fill(name+"CompBwdRefCdf", &s.CompBwdRefCdf, 0, 1<<15)
	s.SingleRefCdf = table3()
	vk.Fill(name+"SingleRefCdf", &s.SingleRefCdf, 0, 1<<15)
	s.MvJointCdf[0] = table1()
	s.MvJointCdf[1] = table1()
	vk.Fill(name+"MvJointCdf", &s.MvJointCdf, 0, 1<<15)
	s.MvClassCdf[0] = table2()
	s.MvClassCdf[1] = table2()
	vk.Fill(name+"MvClassCdf", &s.MvClassCdf, 0, 1<<15)
	s.MvClass0BitCdf[0][0] = table1()
	s.MvClass0BitCdf[0][1] = table1()
	s.MvClass0BitCdf[1][0] = table1()
	s.MvClass0BitCdf[1][1] = table1()
	vk.Fill(name+"MvClass0BitCdf", &s.MvClass0BitCdf, 0, 1<<15)
	s.MvFrCdf[0] = table2()
	s.MvFrCdf[1] = table2()
	vk.Fill(name+"MvFrCdf", &s.MvFrCdf, 0, 1<<15)
	s.MvClass0FrCdf[0] = table3()
	s.MvClass0FrCdf[1] = table3()
	vk.Fill(name+"MvClass0FrCdf", &s.MvClass0FrCdf, 0, 1<<15)
	s.MvClass0HpCdf[0][0] = table1()
	s.MvClass0HpCdf[0][1] = table1()
	s.MvClass0HpCdf[1][0] = table1()
	s.MvClass0HpCdf[1][1] = table1()
	vk.Fill(name+"MvClass0HpCdf", &s.MvClass0HpCdf, 0, 1<<15)
	s.MvSignCdf[0][0] = table1()
	s.MvSignCdf[0][1] = table1()
	s.MvSignCdf[1][0] = table1()
	s.MvSignCdf[1][1] = table1()
	vk.Fill(name+"MvSignCdf", &s.MvSignCdf, 0, 1<<15)
	s.MvBitCdf[0][0] = table2()
	s.MvBitCdf[0][1] = table2()
	s.MvBitCdf[1][0] = table2()
	s.MvBitCdf[1][1] = table2()
	vk.Fill(name+"MvBitCdf", &s.MvBitCdf, 0, 1<<15)
	s.MvHpCdf[0][0] = table1()
	s.MvHpCdf[0][1] = table1()
	s.MvHpCdf[1][0] = table1()
	s.MvHpCdf[1][1] = table1()
	vk.Fill(name+"MvHpCdf", &s.MvHpCdf, 0, 1<<15)
	s.PaletteYModeCdf = table3()
	vk.Fill(name+"PaletteYModeCdf", &s.PaletteYModeCdf, 0, 1<<15)
	s.PaletteUVModeCdf = table2()
	vk.Fill(name+"PaletteUVModeCdf", &s.PaletteUVModeCdf, 0, 1<<15)
	s.PaletteUVSizeCdf = table2()
	vk.Fill(name+"PaletteUVSizeCdf", &s.PaletteUVSizeCdf, 0, 1<<15)
	s.PaletteSize2YColorCdf = table2()
	vk.Fill(name+"PaletteSize2YColorCdf", &s.PaletteSize2YColorCdf, 0, 1<<15)
	s.PaletteSize2UVColorCdf = table2()
	vk.Fill(name+"PaletteSize2UVColorCdf", &s.PaletteSize2UVColorCdf, 0, 1<<15)
	s.PaletteSize3YColorCdf = table2()
	vk.Fill(name+"PaletteSize3YColorCdf", &s.PaletteSize3YColorCdf, 0, 1<<15)
	s.PaletteSize3UVColorCdf = table2()
	vk.Fill(name+"PaletteSize3UVColorCdf", &s.PaletteSize3UVColorCdf, 0, 1<<15)
	s.PaletteSize4YColorCdf = table2()
	vk.Fill(name+"PaletteSize4YColorCdf", &s.PaletteSize4YColorCdf, 0, 1<<15)
	s.PaletteSize4UVColorCdf = table2()
	vk.Fill(name+"PaletteSize4UVColorCdf", &s.PaletteSize4UVColorCdf, 0, 1<<15)
	s.PaletteSize5YColorCdf = table2()
	vk.Fill(name+"PaletteSize5YColorCdf", &s.PaletteSize5YColorCdf, 0, 1<<15)
	s.PaletteSize5UVColorCdf = table2()
	vk.Fill(name+"PaletteSize5UVColorCdf", &s.PaletteSize5UVColorCdf, 0, 1<<15)
	s.PaletteSize6YColorCdf = table2()
	vk.Fill(name+"PaletteSize6YColorCdf", &s.PaletteSize6YColorCdf, 0, 1<<15)
	s.PaletteSize6UVColorCdf = table2()
	vk.Fill(name+"PaletteSize6UVColorCdf", &s.PaletteSize6UVColorCdf, 0, 1<<15)
	s.PaletteSize7YColorCdf = table2()
	vk.Fill(name+"PaletteSize7YColorCdf", &s.PaletteSize7YColorCdf, 0, 1<<15)
	s.PaletteSize7UVColorCdf = table2()
	vk.Fill(name+"PaletteSize7UVColorCdf", &s.PaletteSize7UVColorCdf, 0, 1<<15)
	s.PaletteSize8YColorCdf = table2()
	vk.Fill(name+"PaletteSize8YColorCdf", &s.PaletteSize8YColorCdf, 0, 1<<15)
	s.PaletteSize8UVColorCdf = table2()
	vk.Fill(name+"PaletteSize8UVColorCdf", &s.PaletteSize8UVColorCdf, 0, 1<<15)
	s.DeltaQCdf = table1()
	vk.Fill(name+"DeltaQCdf", &s.DeltaQCdf, 0, 1<<15)
	s.DeltaLFCdf = table1()
	vk.Fill(name+"DeltaLFCdf", &s.DeltaLFCdf, 0, 1<<15)
	s.DeltaLFMultiCdf[0] = table1()
	s.DeltaLFMultiCdf[1] = table1()
	s.DeltaLFMultiCdf[2] = table1()
	s.DeltaLFMultiCdf[3] = table1()
	vk.Fill(name+"DeltaLFMultiCdf", &s.DeltaLFMultiCdf, 0, 1<<15)
	s.IntraTxTypeSet1Cdf = table3()
	vk.Fill(name+"IntraTxTypeSet1Cdf", &s.IntraTxTypeSet1Cdf, 0, 1<<15)
	s.IntraTxTypeSet2Cdf = table3()
	vk.Fill(name+"IntraTxTypeSet2Cdf", &s.IntraTxTypeSet2Cdf, 0, 1<<15)
	s.InterTxTypeSet1Cdf = table2()
	vk.Fill(name+"InterTxTypeSet1Cdf", &s.InterTxTypeSet1Cdf, 0, 1<<15)
	s.InterTxTypeSet2Cdf = table1()
	vk.Fill(name+"InterTxTypeSet2Cdf", &s.InterTxTypeSet2Cdf, 0, 1<<15)
	s.InterTxTypeSet3Cdf = table2()
	vk.Fill(name+"InterTxTypeSet3Cdf", &s.InterTxTypeSet3Cdf, 0, 1<<15)
	s.UseObmcCdf = table2()
	vk.Fill(name+"UseObmcCdf", &s.UseObmcCdf, 0, 1<<15)
	s.InterIntraCdf = table2()
	vk.Fill(name+"InterIntraCdf", &s.InterIntraCdf, 0, 1<<15)
	s.CompRefTypeCdf = table2()
	vk.Fill(name+"CompRefTypeCdf", &s.CompRefTypeCdf, 0, 1<<15)
	s.CflSignCdf = table1()
	vk.Fill(name+"CflSignCdf", &s.CflSignCdf, 0, 1<<15)
	s.UniCompRefCdf = table3()
	vk.Fill(name+"UniCompRefCdf", &s.UniCompRefCdf, 0, 1<<15)
	s.WedgeInterIntraCdf = table2()
	vk.Fill(name+"WedgeInterIntraCdf", &s.WedgeInterIntraCdf, 0, 1<<15)
	s.CompGroupIdxCdf = table2()
	vk.Fill(name+"CompGroupIdxCdf", &s.CompGroupIdxCdf, 0, 1<<15)
	s.CompoundIdxCdf = table2()
	vk.Fill(name+"CompoundIdxCdf", &s.CompoundIdxCdf, 0, 1<<15)
	s.CompoundTypeCdf = table2()
	vk.Fill(name+"CompoundTypeCdf", &s.CompoundTypeCdf, 0, 1<<15)
	s.InterIntraModeCdf = table2()
	vk.Fill(name+"InterIntraModeCdf", &s.InterIntraModeCdf, 0, 1<<15)
	s.WedgeIndexCdf = table2()
	vk.Fill(name+"WedgeIndexCdf", &s.WedgeIndexCdf, 0, 1<<15)
	s.CflAlphaCdf = table2()
	vk.Fill(name+"CflAlphaCdf", &s.CflAlphaCdf, 0, 1<<15)
	s.UseWienerCdf = table1()
	vk.Fill(name+"UseWienerCdf", &s.UseWienerCdf, 0, 1<<15)
	s.UseSgrprojCdf = table1()
	vk.Fill(name+"UseSgrprojCdf", &s.UseSgrprojCdf, 0, 1<<15)
	s.RestorationTypeCdf = table1()
	vk.Fill(name+"RestorationTypeCdf", &s.RestorationTypeCdf, 0, 1<<15)
}

func sameFrame(a, b *state.State, msg string) {
	vk.Assert(vk.Eq(a.TxbSkipCdf, b.TxbSkipCdf), "TxbSkipCdf "+msg)
	vk.Assert(vk.Eq(a.EobPt16Cdf, b.EobPt16Cdf), "EobPt16Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt32Cdf, b.EobPt32Cdf), "EobPt32Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt64Cdf, b.EobPt64Cdf), "EobPt64Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt128Cdf, b.EobPt128Cdf), "EobPt128Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt256Cdf, b.EobPt256Cdf), "EobPt256Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt512Cdf, b.EobPt512Cdf), "EobPt512Cdf "+msg)
	vk.Assert(vk.Eq(a.EobPt1024Cdf, b.EobPt1024Cdf), "EobPt1024Cdf "+msg)
	vk.Assert(vk.Eq(a.EobExtraCdf, b.EobExtraCdf), "EobExtraCdf "+msg)
	vk.Assert(vk.Eq(a.DcSignCdf, b.DcSignCdf), "DcSignCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBaseEobCdf, b.CoeffBaseEobCdf), "CoeffBaseEobCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBaseCdf, b.CoeffBaseCdf), "CoeffBaseCdf "+msg)
	vk.Assert(vk.Eq(a.CoeffBrCdf, b.CoeffBrCdf), "CoeffBrCdf "+msg)
	vk.Assert(vk.Eq(a.IntraFrameYModeCdf, b.IntraFrameYModeCdf), "IntraFrameYModeCdf "+msg)
	vk.Assert(vk.Eq(a.YModeCdf, b.YModeCdf), "YModeCdf "+msg)
	vk.Assert(vk.Eq(a.UVModeCflNotAllowedCdf, b.UVModeCflNotAllowedCdf), "UVModeCflNotAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.UVModeCflAllowedCdf, b.UVModeCflAllowedCdf), "UVModeCflAllowedCdf "+msg)
	vk.Assert(vk.Eq(a.AngleDeltaCdf, b.AngleDeltaCdf), "AngleDeltaCdf "+msg)
	vk.Assert(vk.Eq(a.IntrabcCdf, b.IntrabcCdf), "IntrabcCdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW8Cdf, b.PartitionW8Cdf), "PartitionW8Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW16Cdf, b.PartitionW16Cdf), "PartitionW16Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW32Cdf, b.PartitionW32Cdf), "PartitionW32Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW64Cdf, b.PartitionW64Cdf), "PartitionW64Cdf "+msg)
	vk.Assert(vk.Eq(a.PartitionW128Cdf, b.PartitionW128Cdf), "PartitionW128Cdf "+msg)
	vk.Assert(vk.Eq(a.SegmentIdCdf, b.SegmentIdCdf), "SegmentIdCdf "+msg)
	vk.Assert(vk.Eq(a.SegmentIdPredictedCdf, b.SegmentIdPredictedCdf), "SegmentIdPredictedCdf "+msg)
	vk.Assert(vk.Eq(a.Tx8x8Cdf, b.Tx8x8Cdf), "Tx8x8Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx16x16Cdf, b.Tx16x16Cdf), "Tx16x16Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx32x32Cdf, b.Tx32x32Cdf), "Tx32x32Cdf "+msg)
	vk.Assert(vk.Eq(a.Tx64x64Cdf, b.Tx64x64Cdf), "Tx64x64Cdf "+msg)
	vk.Assert(vk.Eq(a.TxfmSplitCdf, b.TxfmSplitCdf), "TxfmSplitCdf "+msg)
	vk.Assert(vk.Eq(a.FilterIntraModeCdf, b.FilterIntraModeCdf), "FilterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.FilterIntraCdf, b.FilterIntraCdf), "FilterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.InterpFilterCdf, b.InterpFilterCdf), "InterpFilterCdf "+msg)
	vk.Assert(vk.Eq(a.MotionModeCdf, b.MotionModeCdf), "MotionModeCdf "+msg)
	vk.Assert(vk.Eq(a.NewMvCdf, b.NewMvCdf), "NewMvCdf "+msg)
	vk.Assert(vk.Eq(a.ZeroMvCdf, b.ZeroMvCdf), "ZeroMvCdf "+msg)
	vk.Assert(vk.Eq(a.RefMvCdf, b.RefMvCdf), "RefMvCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundModeCdf, b.CompoundModeCdf), "CompoundModeCdf "+msg)
	vk.Assert(vk.Eq(a.DrlModeCdf, b.DrlModeCdf), "DrlModeCdf "+msg)
	vk.Assert(vk.Eq(a.IsInterCdf, b.IsInterCdf), "IsInterCdf "+msg)
	vk.Assert(vk.Eq(a.CompModeCdf, b.CompModeCdf), "CompModeCdf "+msg)
	vk.Assert(vk.Eq(a.SkipModeCdf, b.SkipModeCdf), "SkipModeCdf "+msg)
	vk.Assert(vk.Eq(a.SkipCdf, b.SkipCdf), "SkipCdf "+msg)
	vk.Assert(vk.Eq(a.CompRefCdf, b.CompRefCdf), "CompRefCdf "+msg)
	vk.Assert(vk.Eq(a.CompBwdRefCdf, b.CompBwdRefCdf), "CompBwdRefCdf "+msg)
	vk.Assert(vk.Eq(a.SingleRefCdf, b.SingleRefCdf), "SingleRefCdf "+msg)
	vk.Assert(vk.Eq(a.MvJointCdf, b.MvJointCdf), "MvJointCdf "+msg)
	vk.Assert(vk.Eq(a.MvClassCdf, b.MvClassCdf), "MvClassCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0BitCdf, b.MvClass0BitCdf), "MvClass0BitCdf "+msg)
	vk.Assert(vk.Eq(a.MvFrCdf, b.MvFrCdf), "MvFrCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0FrCdf, b.MvClass0FrCdf), "MvClass0FrCdf "+msg)
	vk.Assert(vk.Eq(a.MvClass0HpCdf, b.MvClass0HpCdf), "MvClass0HpCdf "+msg)
	vk.Assert(vk.Eq(a.MvSignCdf, b.MvSignCdf), "MvSignCdf "+msg)
	vk.Assert(vk.Eq(a.MvBitCdf, b.MvBitCdf), "MvBitCdf "+msg)
	vk.Assert(vk.Eq(a.MvHpCdf, b.MvHpCdf), "MvHpCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteYModeCdf, b.PaletteYModeCdf), "PaletteYModeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteUVModeCdf, b.PaletteUVModeCdf), "PaletteUVModeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteUVSizeCdf, b.PaletteUVSizeCdf), "PaletteUVSizeCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize2YColorCdf, b.PaletteSize2YColorCdf), "PaletteSize2YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize2UVColorCdf, b.PaletteSize2UVColorCdf), "PaletteSize2UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize3YColorCdf, b.PaletteSize3YColorCdf), "PaletteSize3YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize3UVColorCdf, b.PaletteSize3UVColorCdf), "PaletteSize3UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize4YColorCdf, b.PaletteSize4YColorCdf), "PaletteSize4YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize4UVColorCdf, b.PaletteSize4UVColorCdf), "PaletteSize4UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize5YColorCdf, b.PaletteSize5YColorCdf), "PaletteSize5YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize5UVColorCdf, b.PaletteSize5UVColorCdf), "PaletteSize5UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize6YColorCdf, b.PaletteSize6YColorCdf), "PaletteSize6YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize6UVColorCdf, b.PaletteSize6UVColorCdf), "PaletteSize6UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize7YColorCdf, b.PaletteSize7YColorCdf), "PaletteSize7YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize7UVColorCdf, b.PaletteSize7UVColorCdf), "PaletteSize7UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize8YColorCdf, b.PaletteSize8YColorCdf), "PaletteSize8YColorCdf "+msg)
	vk.Assert(vk.Eq(a.PaletteSize8UVColorCdf, b.PaletteSize8UVColorCdf), "PaletteSize8UVColorCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaQCdf, b.DeltaQCdf), "DeltaQCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaLFCdf, b.DeltaLFCdf), "DeltaLFCdf "+msg)
	vk.Assert(vk.Eq(a.DeltaLFMultiCdf, b.DeltaLFMultiCdf), "DeltaLFMultiCdf "+msg)
	vk.Assert(vk.Eq(a.IntraTxTypeSet1Cdf, b.IntraTxTypeSet1Cdf), "IntraTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.IntraTxTypeSet2Cdf, b.IntraTxTypeSet2Cdf), "IntraTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet1Cdf, b.InterTxTypeSet1Cdf), "InterTxTypeSet1Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet2Cdf, b.InterTxTypeSet2Cdf), "InterTxTypeSet2Cdf "+msg)
	vk.Assert(vk.Eq(a.InterTxTypeSet3Cdf, b.InterTxTypeSet3Cdf), "InterTxTypeSet3Cdf "+msg)
	vk.Assert(vk.Eq(a.UseObmcCdf, b.UseObmcCdf), "UseObmcCdf "+msg)
	vk.Assert(vk.Eq(a.InterIntraCdf, b.InterIntraCdf), "InterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.CompRefTypeCdf, b.CompRefTypeCdf), "CompRefTypeCdf "+msg)
	vk.Assert(vk.Eq(a.CflSignCdf, b.CflSignCdf), "CflSignCdf "+msg)
	vk.Assert(vk.Eq(a.UniCompRefCdf, b.UniCompRefCdf), "UniCompRefCdf "+msg)
	vk.Assert(vk.Eq(a.WedgeInterIntraCdf, b.WedgeInterIntraCdf), "WedgeInterIntraCdf "+msg)
	vk.Assert(vk.Eq(a.CompGroupIdxCdf, b.CompGroupIdxCdf), "CompGroupIdxCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundIdxCdf, b.CompoundIdxCdf), "CompoundIdxCdf "+msg)
	vk.Assert(vk.Eq(a.CompoundTypeCdf, b.CompoundTypeCdf), "CompoundTypeCdf "+msg)
	vk.Assert(vk.Eq(a.InterIntraModeCdf, b.InterIntraModeCdf), "InterIntraModeCdf "+msg)
	vk.Assert(vk.Eq(a.WedgeIndexCdf, b.WedgeIndexCdf), "WedgeIndexCdf "+msg)
	vk.Assert(vk.Eq(a.CflAlphaCdf, b.CflAlphaCdf), "CflAlphaCdf "+msg)
	vk.Assert(vk.Eq(a.UseWienerCdf, b.UseWienerCdf), "UseWienerCdf "+msg)
	vk.Assert(vk.Eq(a.UseSgrprojCdf, b.UseSgrprojCdf), "UseSgrprojCdf "+msg)
	vk.Assert(vk.Eq(a.RestorationTypeCdf, b.RestorationTypeCdf), "RestorationTypeCdf "+msg)
}
