// Code generated by tools/cdfdig.py; DO NOT EDIT.

package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/state"
)

func defaults(s *state.State) {
	var c checker
	c = checker{}
	c.table3(s.IntraFrameYModeCdf, 5, 5, 14)
	c.is(0xe4480b79d3f7874f, "IntraFrameYModeCdf")
	c = checker{}
	c.table2(s.YModeCdf, 4, 14)
	c.is(0x353da6fa19755a0, "YModeCdf")
	c = checker{}
	c.table2(s.UVModeCflNotAllowedCdf, 13, 14)
	c.is(0xdbffc0dace081e0d, "UVModeCflNotAllowedCdf")
	c = checker{}
	c.table2(s.UVModeCflAllowedCdf, 13, 15)
	c.is(0xa5e7d6c4897ba6c9, "UVModeCflAllowedCdf")
	c = checker{}
	c.table2(s.AngleDeltaCdf, 8, 8)
	c.is(0xd252c4eaf413fcf7, "AngleDeltaCdf")
	c = checker{}
	c.table1(s.IntrabcCdf, 3)
	c.is(0x7b0a7b2c33deb8c1, "IntrabcCdf")
	c = checker{}
	c.table2(s.PartitionW8Cdf, 4, 5)
	c.is(0xe4d5e2103e85372f, "PartitionW8Cdf")
	c = checker{}
	c.table2(s.PartitionW16Cdf, 4, 11)
	c.is(0xc4e0e3e599666f0e, "PartitionW16Cdf")
	c = checker{}
	c.table2(s.PartitionW32Cdf, 4, 11)
	c.is(0x32f6fafb59193ff0, "PartitionW32Cdf")
	c = checker{}
	c.table2(s.PartitionW64Cdf, 4, 11)
	c.is(0x14368030da29dcc5, "PartitionW64Cdf")
	c = checker{}
	c.table2(s.PartitionW128Cdf, 4, 9)
	c.is(0x82a981fb24bcd533, "PartitionW128Cdf")
	c = checker{}
	c.table2(s.SegmentIdCdf, 3, 9)
	c.is(0xc4f944d5a9980b86, "SegmentIdCdf")
	c = checker{}
	c.table2(s.SegmentIdPredictedCdf, 3, 3)
	c.is(0xd6ebf74375f39695, "SegmentIdPredictedCdf")
	c = checker{}
	c.table2(s.Tx8x8Cdf, 3, 3)
	c.is(0xea4bce6c8031995, "Tx8x8Cdf")
	c = checker{}
	c.table2(s.Tx16x16Cdf, 3, 4)
	c.is(0xbbe73caa0d821af0, "Tx16x16Cdf")
	c = checker{}
	c.table2(s.Tx32x32Cdf, 3, 4)
	c.is(0x926d13969f182b03, "Tx32x32Cdf")
	c = checker{}
	c.table2(s.Tx64x64Cdf, 3, 4)
	c.is(0xd7369edc2e875bb, "Tx64x64Cdf")
	c = checker{}
	c.table2(s.TxfmSplitCdf, 21, 3)
	c.is(0xeb84ce2c328da7c, "TxfmSplitCdf")
	c = checker{}
	c.table1(s.FilterIntraModeCdf, 6)
	c.is(0x5b9545bfdb5c55fe, "FilterIntraModeCdf")
	c = checker{}
	c.table2(s.FilterIntraCdf, 22, 3)
	c.is(0xb7dac9879f1db442, "FilterIntraCdf")
	c = checker{}
	c.table2(s.InterpFilterCdf, 16, 4)
	c.is(0x3706cde1d330ffaf, "InterpFilterCdf")
	c = checker{}
	c.table2(s.MotionModeCdf, 22, 4)
	c.is(0x5e462bbe72c63e92, "MotionModeCdf")
	c = checker{}
	c.table2(s.NewMvCdf, 6, 3)
	c.is(0xd6dd635583b247d2, "NewMvCdf")
	c = checker{}
	c.table2(s.ZeroMvCdf, 2, 3)
	c.is(0xb488e96bec1aaed3, "ZeroMvCdf")
	c = checker{}
	c.table2(s.RefMvCdf, 6, 3)
	c.is(0xd6dd635583b247d2, "RefMvCdf")
	c = checker{}
	c.table2(s.CompoundModeCdf, 8, 9)
	c.is(0xd672eed0b3ff2621, "CompoundModeCdf")
	c = checker{}
	c.table2(s.DrlModeCdf, 3, 3)
	c.is(0x5318cd791391db6e, "DrlModeCdf")
	c = checker{}
	c.table2(s.IsInterCdf, 4, 3)
	c.is(0x507c0265d1fa665c, "IsInterCdf")
	c = checker{}
	c.table2(s.CompModeCdf, 5, 3)
	c.is(0xa9d99ecaaf090dae, "CompModeCdf")
	c = checker{}
	c.table2(s.SkipModeCdf, 3, 3)
	c.is(0xeaaf1a299cd9d6c5, "SkipModeCdf")
	c = checker{}
	c.table2(s.SkipCdf, 3, 3)
	c.is(0x79768462923d738f, "SkipCdf")
	c = checker{}
	c.table3(s.CompRefCdf, 3, 3, 3)
	c.is(0x6bde17daeca81d09, "CompRefCdf")
	c = checker{}
	c.table3(s.CompBwdRefCdf, 3, 2, 3)
	c.is(0xf61530d0e810e5c3, "CompBwdRefCdf")
	c = checker{}
	c.table3(s.SingleRefCdf, 3, 6, 3)
	c.is(0x4bbd1af9b09b342f, "SingleRefCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvJointCdf {
		c.table1(s.MvJointCdf[i], 5)
	}
	c.is(0x5265a2a2dca74b1e, "MvJointCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvClassCdf {
		c.table2(s.MvClassCdf[i], 2, 12)
	}
	c.is(0x4f2a629dad029d9a, "MvClassCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvClass0BitCdf {
		c.h = c.h*mix + 2
		for j := range s.MvClass0BitCdf[i] {
			c.table1(s.MvClass0BitCdf[i][j], 3)
		}
	}
	c.is(0xad744a75c6ed8f66, "MvClass0BitCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvFrCdf {
		c.table2(s.MvFrCdf[i], 2, 5)
	}
	c.is(0x95d183740531cda6, "MvFrCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvClass0FrCdf {
		c.table3(s.MvClass0FrCdf[i], 2, 2, 5)
	}
	c.is(0x865c5080157138e6, "MvClass0FrCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvClass0HpCdf {
		c.h = c.h*mix + 2
		for j := range s.MvClass0HpCdf[i] {
			c.table1(s.MvClass0HpCdf[i][j], 3)
		}
	}
	c.is(0x4b02bc4aad96bf66, "MvClass0HpCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvSignCdf {
		c.h = c.h*mix + 2
		for j := range s.MvSignCdf[i] {
			c.table1(s.MvSignCdf[i][j], 3)
		}
	}
	c.is(0xa50afd569f1bff66, "MvSignCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvBitCdf {
		c.h = c.h*mix + 2
		for j := range s.MvBitCdf[i] {
			c.table2(s.MvBitCdf[i][j], 10, 3)
		}
	}
	c.is(0x1eedae013aa5c106, "MvBitCdf")
	c = checker{}
	c.h = c.h*mix + 2
	for i := range s.MvHpCdf {
		c.h = c.h*mix + 2
		for j := range s.MvHpCdf[i] {
			c.table1(s.MvHpCdf[i][j], 3)
		}
	}
	c.is(0xa50afd569f1bff66, "MvHpCdf")
	c = checker{}
	c.table3(s.PaletteYModeCdf, 7, 3, 3)
	c.is(0x95610130dc00e46e, "PaletteYModeCdf")
	c = checker{}
	c.table2(s.PaletteUVModeCdf, 2, 3)
	c.is(0xc3d3ff9f84a4ce93, "PaletteUVModeCdf")
	c = checker{}
	c.table2(s.PaletteUVSizeCdf, 7, 8)
	c.is(0x5f0738eb59f1016d, "PaletteUVSizeCdf")
	c = checker{}
	c.table2(s.PaletteSize2YColorCdf, 5, 3)
	c.is(0x637f2ba8fcdf24c1, "PaletteSize2YColorCdf")
	c = checker{}
	c.table2(s.PaletteSize2UVColorCdf, 5, 3)
	c.is(0x895f811ed3dd80b8, "PaletteSize2UVColorCdf")
	c = checker{}
	c.table2(s.PaletteSize3YColorCdf, 5, 4)
	c.is(0x1036add4f3036d09, "PaletteSize3YColorCdf")
	c = checker{}
	c.table2(s.PaletteSize3UVColorCdf, 5, 4)
	c.is(0x8e705d0322d58775, "PaletteSize3UVColorCdf")
	c = checker{}
	c.table2(s.PaletteSize4YColorCdf, 5, 5)
	c.is(0x99196c2aca345558, "PaletteSize4YColorCdf")
	c = checker{}
	c.table2(s.PaletteSize4UVColorCdf, 5, 5)
	c.is(0xe3e792c10786a2ee, "PaletteSize4UVColorCdf")
	c = checker{}
	c.table2(s.PaletteSize5YColorCdf, 5, 6)
	c.is(0x935645267e8b2014, "PaletteSize5YColorCdf")
	c = checker{}
	c.table2(s.PaletteSize5UVColorCdf, 5, 6)
	c.is(0x935645267e8b2014, "PaletteSize5UVColorCdf")
	c = checker{}
	c.table2(s.PaletteSize6YColorCdf, 5, 7)
	c.is(0xb06a6572f934c388, "PaletteSize6YColorCdf")
	c = checker{}
	c.table2(s.PaletteSize6UVColorCdf, 5, 7)
	c.is(0x3939086a11c9b8a3, "PaletteSize6UVColorCdf")
	c = checker{}
	c.table2(s.PaletteSize7YColorCdf, 5, 8)
	c.is(0x306c03fb6b99bf62, "PaletteSize7YColorCdf")
	c = checker{}
	c.table2(s.PaletteSize7UVColorCdf, 5, 8)
	c.is(0x9c1feacfa702721c, "PaletteSize7UVColorCdf")
	c = checker{}
	c.table2(s.PaletteSize8YColorCdf, 5, 9)
	c.is(0xaaf29990c22681d9, "PaletteSize8YColorCdf")
	c = checker{}
	c.table2(s.PaletteSize8UVColorCdf, 5, 9)
	c.is(0x2d022baadaf74e77, "PaletteSize8UVColorCdf")
	c = checker{}
	c.table1(s.DeltaQCdf, 5)
	c.is(0x7b4204839438609b, "DeltaQCdf")
	c = checker{}
	c.table1(s.DeltaLFCdf, 5)
	c.is(0x7b4204839438609b, "DeltaLFCdf")
	c = checker{}
	c.h = c.h*mix + 4
	for i := range s.DeltaLFMultiCdf {
		c.table1(s.DeltaLFMultiCdf[i], 5)
	}
	c.is(0xb195db6a7df9f0c0, "DeltaLFMultiCdf")
	c = checker{}
	c.table3(s.IntraTxTypeSet1Cdf, 2, 13, 8)
	c.is(0x1b7ffcade0414be4, "IntraTxTypeSet1Cdf")
	c = checker{}
	c.table3(s.IntraTxTypeSet2Cdf, 3, 13, 6)
	c.is(0x985b035fa2e9e8dd, "IntraTxTypeSet2Cdf")
	c = checker{}
	c.table2(s.InterTxTypeSet1Cdf, 2, 17)
	c.is(0x227ef880883d44e8, "InterTxTypeSet1Cdf")
	c = checker{}
	c.table1(s.InterTxTypeSet2Cdf, 13)
	c.is(0xb9c51d12d751ebf, "InterTxTypeSet2Cdf")
	c = checker{}
	c.table2(s.InterTxTypeSet3Cdf, 4, 3)
	c.is(0xc5026c9133b57015, "InterTxTypeSet3Cdf")
	c = checker{}
	c.table2(s.UseObmcCdf, 22, 3)
	c.is(0x631852f0c1e7d717, "UseObmcCdf")
	c = checker{}
	c.table2(s.InterIntraCdf, 3, 3)
	c.is(0xbb404275aa3ec1ce, "InterIntraCdf")
	c = checker{}
	c.table2(s.CompRefTypeCdf, 5, 3)
	c.is(0xf6ac70a5b7f7c3bb, "CompRefTypeCdf")
	c = checker{}
	c.table1(s.CflSignCdf, 9)
	c.is(0xb7495430c27907b1, "CflSignCdf")
	c = checker{}
	c.table3(s.UniCompRefCdf, 3, 3, 3)
	c.is(0xf280f9fbdf668a42, "UniCompRefCdf")
	c = checker{}
	c.table2(s.WedgeInterIntraCdf, 22, 3)
	c.is(0x122b9e90f7416325, "WedgeInterIntraCdf")
	c = checker{}
	c.table2(s.CompGroupIdxCdf, 6, 3)
	c.is(0xe8273e18174050ae, "CompGroupIdxCdf")
	c = checker{}
	c.table2(s.CompoundIdxCdf, 6, 3)
	c.is(0xf2cea4d4401121b9, "CompoundIdxCdf")
	c = checker{}
	c.table2(s.CompoundTypeCdf, 22, 3)
	c.is(0xecc7cf59436c505e, "CompoundTypeCdf")
	c = checker{}
	c.table2(s.InterIntraModeCdf, 3, 5)
	c.is(0x242735de5d8bb5f8, "InterIntraModeCdf")
	c = checker{}
	c.table2(s.WedgeIndexCdf, 22, 17)
	c.is(0xc2b8774d8062bada, "WedgeIndexCdf")
	c = checker{}
	c.table2(s.CflAlphaCdf, 6, 17)
	c.is(0xeb6fd29217a3ec59, "CflAlphaCdf")
	c = checker{}
	c.table1(s.UseWienerCdf, 3)
	c.is(0xf2776c3b97214978, "UseWienerCdf")
	c = checker{}
	c.table1(s.UseSgrprojCdf, 3)
	c.is(0x2cef3bc832c591b5, "UseSgrprojCdf")
	c = checker{}
	c.table1(s.RestorationTypeCdf, 4)
	c.is(0x369b221c42d266ae, "RestorationTypeCdf")
}

func coeffDefaults(s *state.State, idx int) {
	var c checker
	c = checker{}
	c.table3(s.TxbSkipCdf, 5, 13, 3)
	c.is([]uint64{0x76364a0bad85ba8e, 0x41297d8553f19881, 0x1e892aa531ab3e01, 0x74326ea21977744}[idx], "TxbSkipCdf")
	c = checker{}
	c.table3(s.EobPt16Cdf, 2, 2, 6)
	c.is([]uint64{0x61358cb6c1f1a437, 0xba23057404df19eb, 0x866a1db163e6ca93, 0x4c0d5b7e26a6020d}[idx], "EobPt16Cdf")
	c = checker{}
	c.table3(s.EobPt32Cdf, 2, 2, 7)
	c.is([]uint64{0x6d6ba3fe757afb36, 0xa41adc6157bab301, 0x9528d6878a9d3238, 0xfe98e9f3ada0b0f3}[idx], "EobPt32Cdf")
	c = checker{}
	c.table3(s.EobPt64Cdf, 2, 2, 8)
	c.is([]uint64{0xc1718c18cb1c0a5a, 0xe6e1f2f0b8652509, 0x69e0a6e8938e730c, 0xab17ca4a406947da}[idx], "EobPt64Cdf")
	c = checker{}
	c.table3(s.EobPt128Cdf, 2, 2, 9)
	c.is([]uint64{0x6665779ec8076e6d, 0x31773e93efee448, 0xbeb09b30c5517cf2, 0x4c69e113e7cb7173}[idx], "EobPt128Cdf")
	c = checker{}
	c.table3(s.EobPt256Cdf, 2, 2, 10)
	c.is([]uint64{0x4ec608976223a1d9, 0xd492733c766e17a1, 0x65440bde7455732e, 0x17dcaffe1e9f4a1b}[idx], "EobPt256Cdf")
	c = checker{}
	c.table2(s.EobPt512Cdf, 2, 11)
	c.is([]uint64{0xe264c7b93293c27e, 0xc78d7ac49bbea6b5, 0x54817c6ab5b29773, 0xc1893e99e922ab5c}[idx], "EobPt512Cdf")
	c = checker{}
	c.table2(s.EobPt1024Cdf, 2, 12)
	c.is([]uint64{0xc463616cd8621b26, 0x930766fffb810116, 0x8669c811d3f16fdc, 0xe313cb4e59f0fd91}[idx], "EobPt1024Cdf")
	c = checker{}
	c.table4(s.EobExtraCdf, 5, 2, 9, 3)
	c.is([]uint64{0x4819ee96cfe3e5e3, 0xafe7720247b5572c, 0xb91b1813258476f7, 0xc2354e67cc3b55b7}[idx], "EobExtraCdf")
	c = checker{}
	c.table3(s.DcSignCdf, 2, 3, 3)
	c.is([]uint64{0x178bd17c8f08da90, 0x178bd17c8f08da90, 0x178bd17c8f08da90, 0x178bd17c8f08da90}[idx], "DcSignCdf")
	c = checker{}
	c.table4(s.CoeffBaseEobCdf, 5, 2, 4, 4)
	c.is([]uint64{0xd0c2ba2deaa0e375, 0x39c8491ed5a7420a, 0xc40d18ae4e1e4046, 0x966fd617cd175c6}[idx], "CoeffBaseEobCdf")
	c = checker{}
	c.table4(s.CoeffBaseCdf, 5, 2, 42, 5)
	c.is([]uint64{0x94e21631338eeb74, 0x3267ddaffa971ce4, 0xa4c524836950ecf2, 0xd942c2c3692ab315}[idx], "CoeffBaseCdf")
	c = checker{}
	c.table4(s.CoeffBrCdf, 5, 2, 21, 5)
	c.is([]uint64{0xb01cf863a9a6a51f, 0x7b71c700949f9cf3, 0x10ee47cf35671d4c, 0x381e8f11ee3dd46d}[idx], "CoeffBrCdf")
}
