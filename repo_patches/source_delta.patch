From e9e901f9be2e280a7112abb9f57099427a542eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 001/161] fix: break the uncompressedheader/tilegroup import
 cycle

uncompressedheader imported tilegroup only for the two load_*_params stubs,
and tilegroup (and literal, symbol, obu, parser) import uncompressedheader,
so six packages could not be compiled. The stubs now live in
uncompressedheader; their behaviour is unchanged.
---
 internal/tilegroup/decode_frame_wrapup.go       | 16 ++--------------
 .../uncompressedheader/uncompressed_header.go   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3bff199..50c9f9a 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -268,18 +268,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	LoadLoopFilterParams(u.FrameToShowMapIdx)
-	LoadSegmentationParams(u.FrameToShowMapIdx)
-}
-
-// load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
-}
-
-// load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a26a0d5..75c362f 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -6,7 +6,6 @@ import (
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
-	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/tileinfo"
 	"github.com/m4tthewde/gov1/internal/util"
 )
@@ -631,12 +630,24 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	tilegroup.LoadLoopFilterParams(prevFrame)
-	tilegroup.LoadSegmentationParams(prevFrame)
+	LoadLoopFilterParams(prevFrame)
+	LoadSegmentationParams(prevFrame)
 
 	panic("not implemented")
 }
 
+// load_loop_filter_params( i )
+func LoadLoopFilterParams(i int) {
+	panic("not implemented")
+
+}
+
+// load_segmentation_params( i )
+func LoadSegmentationParams(i int) {
+	panic("not implemented")
+
+}
+
 func (u *UncompressedHeader) motionFieldEstimation() {
 	panic("not implemented")
 }
-- 
2.43.0


From cb2f7fb562141b9a2a81d39e51a855ec81ecfbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 002/161] fix: Round2Signed rounds its argument, not the
 constant 2

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 688fa5f..3561505 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -94,7 +94,7 @@ func Round2(x int, n int) int {
 
 func Round2Signed(x int, n int) int {
 	if x >= 0 {
-		return Round2(2, n)
+		return Round2(x, n)
 	} else {
 		return -Round2(-x, n)
 	}
-- 
2.43.0


From b80f96601ad261a6b9888ae7d67b37f1f4631285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 003/161] fix: Clip1 clips its argument to the sample range of
 the bit depth

---
 internal/util/util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 3561505..d224c53 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"math"
 	"sort"
 
 	"github.com/m4tthewde/gov1/internal/shared"
@@ -123,7 +122,7 @@ func Clip3(x int, y int, z int) int {
 }
 
 func Clip1(x int, bitDepth int) int {
-	return Clip3(0, int(math.Pow(2, float64(bitDepth)-1)), 2)
+	return Clip3(0, (1<<bitDepth)-1, x)
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-- 
2.43.0


From c7fa0959ed681d101e5394f0ae5d6b3005344950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 004/161] fix: NegDeinterleave maps around every non-zero
 reference

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index d224c53..7aded81 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -126,7 +126,7 @@ func Clip1(x int, bitDepth int) int {
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-	if !(ref == 1) {
+	if ref == 0 {
 		return diff
 	}
 
-- 
2.43.0


From 78d0b45b1ef542c0f3a2d415b77b2ac49f138101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 005/161] fix: NegDeinterleave mirrors the tail inside the
 alphabet

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 7aded81..85d68db 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -152,7 +152,7 @@ func NegDeinterleave(diff int, ref int, max int) int {
 				return ref - (diff >> 1)
 			}
 		}
-		return max - diff + 1
+		return max - (diff + 1)
 	}
 }
 
-- 
2.43.0


From 6c0f71d1f6f36959bc907fdcb529ebca7c666006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 006/161] fix: Cos128 selects the quadrant and has a positive
 last quadrant

---
 internal/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 85d68db..354973f 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -223,17 +223,17 @@ var Cos128_Lookup = []int{
 
 func Cos128(angle int) int {
 	angle2 := angle & 255
-	if angle2 >= 0 || angle2 <= 64 {
+	if angle2 >= 0 && angle2 <= 64 {
 		return Cos128_Lookup[angle2]
 	}
-	if angle2 >= 64 || angle2 <= 128 {
+	if angle2 >= 64 && angle2 <= 128 {
 		return Cos128_Lookup[128-angle2] * -1
 	}
-	if angle2 >= 128 || angle2 <= 192 {
+	if angle2 >= 128 && angle2 <= 192 {
 		return Cos128_Lookup[angle2-128] * -1
 	}
 
-	return Cos128_Lookup[256-angle2] * -1
+	return Cos128_Lookup[256-angle2]
 }
 
 func Sin128(angle int) int {
-- 
2.43.0


From 961d26988951ba8e42ec9ef64edc19ee54f7708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 007/161] fix: Brev reverses every bit

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 354973f..a68a1b1 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -243,7 +243,7 @@ func Sin128(angle int) int {
 func Brev(numBits int, x int) int {
 	t := 0
 	for i := 0; i < numBits; i++ {
-		bit := (x >> 1) & 1
+		bit := (x >> i) & 1
 		t += bit << (numBits - 1 - i)
 	}
 
-- 
2.43.0


From 1c755355bf002213ff5317c9fb1e7b7717be1210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 008/161] fix: restore the values of the 32-sample
 overlapped-motion mask

---
 internal/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index a68a1b1..5a5ab27 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -200,10 +200,10 @@ var Obmc_Mask_4 = []int{39, 50, 59, 64}
 var Obmc_Mask_8 = []int{36, 42, 48, 53, 57, 61, 64, 64}
 var Obmc_Mask_16 = []int{34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64}
 var Obmc_Mask_32 = []int{
-	3, 35, 36, 38, 40, 41, 43, 44,
-	45, 47, 48, 50, 51, 52, 53, 55,
-	56, 57, 58, 59, 60, 60, 61, 62,
-	64, 64, 64, 64, 64, 64, 64, 64,
+	33, 35, 36, 38, 40, 41, 43, 44,
+	45, 47, 47, 48, 50, 51, 52, 53,
+	55, 56, 57, 58, 59, 60, 60, 61,
+	62, 64, 64, 64, 64, 64, 64, 64,
 }
 
 func CountUnitsInFrame(unitSize int, frameSize int) int {
-- 
2.43.0


From 31032527b6948086780ba559025eb4e0c0470371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 009/161] fix: the level of a reduced still picture header is
 not read from other headers

---
 internal/sequenceheader/sequence_header.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f56b718..1c0dcca 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -110,7 +110,10 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 	operatingPointIdcArray := []int{0}
 
-	s.SeqLevelIdx = []int{b.F(5)}
+	s.SeqLevelIdx = []int{0}
+	if s.ReducedStillPictureHeader {
+		s.SeqLevelIdx[0] = b.F(5)
+	}
 	s.SeqTier = []int{0}
 	s.DecoderModelPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayPresentForThisOp = []bool{false}
-- 
2.43.0


From 489f85a0662ca326363688fbb47007715efb741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 010/161] fix: seq_level_idx has five bits

---
 internal/sequenceheader/sequence_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 1c0dcca..94250cf 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -139,7 +139,7 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
 				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(12)
+				s.SeqLevelIdx[i] = b.F(5)
 
 				if s.SeqLevelIdx[i] > 7 {
 					s.SeqTier[i] = b.F(1)
-- 
2.43.0


From bcddecc26b3460604085a259967f005b61336942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 011/161] fix: operating points are present without timing
 information

---
 internal/sequenceheader/sequence_header.go | 44 +++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 94250cf..5f0efb5 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -133,35 +133,35 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 					FramePresentationTimeLengthMinusOne: b.F(5),
 				}
 			}
+		}
 
-			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
-			s.OperatingPointsCountMinusOne = b.F(5)
+		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
+		s.OperatingPointsCountMinusOne = b.F(5)
 
-			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
-				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(5)
+		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
+			operatingPointIdcArray[i] = b.F(12)
+			s.SeqLevelIdx[i] = b.F(5)
 
-				if s.SeqLevelIdx[i] > 7 {
-					s.SeqTier[i] = b.F(1)
-				} else {
-					s.SeqTier[i] = 0
-				}
-				if s.DecoderModelInfoPresent {
-					s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.SeqLevelIdx[i] > 7 {
+				s.SeqTier[i] = b.F(1)
+			} else {
+				s.SeqTier[i] = 0
+			}
+			if s.DecoderModelInfoPresent {
+				s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.DecoderModelPresentForThisOp[i] {
-						s.operatingParametersInfo(b, i)
-					}
-				} else {
-					s.DecoderModelPresentForThisOp[i] = false
+				if s.DecoderModelPresentForThisOp[i] {
+					s.operatingParametersInfo(b, i)
 				}
+			} else {
+				s.DecoderModelPresentForThisOp[i] = false
+			}
 
-				if s.InitialDisplayDelayPresent {
-					s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.InitialDisplayDelayPresent {
+				s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.InitialDisplayDelayPresentForThisOp[i] {
-						s.InitialDisplayDelayMinusOne[i] = b.F(4)
-					}
+				if s.InitialDisplayDelayPresentForThisOp[i] {
+					s.InitialDisplayDelayMinusOne[i] = b.F(4)
 				}
 			}
 		}
-- 
2.43.0


From b5ce66d6507d550a8ac8c18d630a3a5887761b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 012/161] fix: give the operating point lists room for every
 operating point

---
 internal/sequenceheader/sequence_header.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 5f0efb5..5c241c1 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -138,6 +138,17 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
 		s.OperatingPointsCountMinusOne = b.F(5)
 
+		n := s.OperatingPointsCountMinusOne + 1
+		operatingPointIdcArray = make([]int, n)
+		s.SeqLevelIdx = make([]int, n)
+		s.SeqTier = make([]int, n)
+		s.DecoderModelPresentForThisOp = make([]bool, n)
+		s.InitialDisplayDelayPresentForThisOp = make([]bool, n)
+		s.InitialDisplayDelayMinusOne = make([]int, n)
+		s.DecoderBufferDelay = make([]int, n)
+		s.EncoderBufferDelay = make([]int, n)
+		s.LowDelayModeFlag = make([]bool, n)
+
 		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
 			operatingPointIdcArray[i] = b.F(12)
 			s.SeqLevelIdx[i] = b.F(5)
-- 
2.43.0


From 9a8b5351953f36959702f18032ecc3521b661584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 013/161] fix: reduced still picture headers also carry the
 frame size and tools

---
 internal/sequenceheader/sequence_header.go | 127 +++++++++++----------
 1 file changed, 64 insertions(+), 63 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 5c241c1..ec10eda 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -176,83 +176,84 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 				}
 			}
 		}
-		operatingPoint := chooseOperatingPoint()
-		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	}
+
+	operatingPoint := chooseOperatingPoint()
+	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
 
-		s.FrameWidthBitsMinusOne = b.F(4)
-		s.FrameHeightBitsMinusOne = b.F(4)
+	s.FrameWidthBitsMinusOne = b.F(4)
+	s.FrameHeightBitsMinusOne = b.F(4)
 
-		n := s.FrameWidthBitsMinusOne + 1
-		s.MaxFrameWidthMinusOne = b.F(n)
+	n := s.FrameWidthBitsMinusOne + 1
+	s.MaxFrameWidthMinusOne = b.F(n)
 
-		n = s.FrameHeightBitsMinusOne + 1
-		s.MaxFrameHeightMinusOne = b.F(n)
+	n = s.FrameHeightBitsMinusOne + 1
+	s.MaxFrameHeightMinusOne = b.F(n)
 
+	s.FrameIdNumbersPresent = false
+
+	if s.ReducedStillPictureHeader {
 		s.FrameIdNumbersPresent = false
+	} else {
+		s.FrameIdNumbersPresent = b.F(1) != 0
+	}
 
-		if s.ReducedStillPictureHeader {
-			s.FrameIdNumbersPresent = false
-		} else {
-			s.FrameIdNumbersPresent = b.F(1) != 0
-		}
+	if s.FrameIdNumbersPresent {
+		s.DeltaFrameIdLengthMinusTwo = b.F(4)
+		s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	}
 
-		if s.FrameIdNumbersPresent {
-			s.DeltaFrameIdLengthMinusTwo = b.F(4)
-			s.AdditionalFrameIdLengthMinusOne = b.F(3)
-		}
+	s.Use128x128SuperBlock = b.F(1) != 0
+	s.EnableFilterIntra = b.F(1) != 0
+	s.EnableIntraEdgeFilter = b.F(1) != 0
+	s.EnableInterIntraCompound = false
+	s.EnableMaskedCompound = false
+	s.EnableWarpedMotion = false
+	s.EnableDualFilter = false
+	s.EnableOrderHint = false
+	s.EnableJntComp = false
+	s.EnableRefFrameMvs = false
 
-		s.Use128x128SuperBlock = b.F(1) != 0
-		s.EnableFilterIntra = b.F(1) != 0
-		s.EnableIntraEdgeFilter = b.F(1) != 0
-		s.EnableInterIntraCompound = false
-		s.EnableMaskedCompound = false
-		s.EnableWarpedMotion = false
-		s.EnableDualFilter = false
-		s.EnableOrderHint = false
-		s.EnableJntComp = false
-		s.EnableRefFrameMvs = false
-
-		// SELECT_SCREEN_CONTENT_TOOLS
-		s.SeqForceScreenContentTools = 2
-
-		// SELECT_INTEGER_MV
-		s.SeqForceIntegerMv = 2
-
-		s.OrderHintBits = 0
-
-		if !s.ReducedStillPictureHeader {
-			s.EnableInterIntraCompound = b.F(1) != 0
-			s.EnableMaskedCompound = b.F(1) != 0
-			s.EnableWarpedMotion = b.F(1) != 0
-			s.EnableDualFilter = b.F(1) != 0
-			s.EnableOrderHint = b.F(1) != 0
-			if s.EnableOrderHint {
-				s.EnableJntComp = b.F(1) != 0
-				s.EnableRefFrameMvs = b.F(1) != 0
-			}
+	// SELECT_SCREEN_CONTENT_TOOLS
+	s.SeqForceScreenContentTools = 2
 
-			s.SeqChooseScreenContentTools = b.F(1) != 0
-			if s.SeqChooseScreenContentTools {
-				s.SeqForceScreenContentTools = 2
-			} else {
-				s.SeqForceScreenContentTools = b.F(1)
-			}
+	// SELECT_INTEGER_MV
+	s.SeqForceIntegerMv = 2
 
-			if s.SeqForceScreenContentTools > 0 {
-				seqChooseIntegerMv := b.F(1) != 0
+	s.OrderHintBits = 0
 
-				if seqChooseIntegerMv {
-					s.SeqForceIntegerMv = 2
-				} else {
-					s.SeqForceIntegerMv = b.F(1)
-				}
-			} else {
+	if !s.ReducedStillPictureHeader {
+		s.EnableInterIntraCompound = b.F(1) != 0
+		s.EnableMaskedCompound = b.F(1) != 0
+		s.EnableWarpedMotion = b.F(1) != 0
+		s.EnableDualFilter = b.F(1) != 0
+		s.EnableOrderHint = b.F(1) != 0
+		if s.EnableOrderHint {
+			s.EnableJntComp = b.F(1) != 0
+			s.EnableRefFrameMvs = b.F(1) != 0
+		}
+
+		s.SeqChooseScreenContentTools = b.F(1) != 0
+		if s.SeqChooseScreenContentTools {
+			s.SeqForceScreenContentTools = 2
+		} else {
+			s.SeqForceScreenContentTools = b.F(1)
+		}
+
+		if s.SeqForceScreenContentTools > 0 {
+			seqChooseIntegerMv := b.F(1) != 0
+
+			if seqChooseIntegerMv {
 				s.SeqForceIntegerMv = 2
+			} else {
+				s.SeqForceIntegerMv = b.F(1)
 			}
+		} else {
+			s.SeqForceIntegerMv = 2
+		}
 
-			if s.EnableOrderHint {
-				s.OrderHintBits = b.F(3) + 1
-			}
+		if s.EnableOrderHint {
+			s.OrderHintBits = b.F(3) + 1
 		}
 	}
 
-- 
2.43.0


From ff092e979bf78395b495c5cde3fc97fbffccc073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 014/161] fix: keep the operating point list in the sequence
 header for the frame header

---
 internal/sequenceheader/sequence_header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index ec10eda..b6ebd61 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -179,6 +179,7 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 	}
 
 	operatingPoint := chooseOperatingPoint()
+	s.OperatingPointIdc = operatingPointIdcArray
 	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
 
 	s.FrameWidthBitsMinusOne = b.F(4)
-- 
2.43.0


From 625adfb39c73ce42661c0df3d0e424bd3a93a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 015/161] fix: padding ends at the declared size, not at the
 first zero byte

---
 internal/obu/obu.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d044376..e86fd03 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -134,10 +134,15 @@ func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
 
 // padding_obu( )
 func (o *Obu) paddingObu(b *bitstream.BitStream) {
-	obuPaddingByte := 1
-	for obuPaddingByte != 0 {
-		obuPaddingByte = b.F(8)
+	startPosition := b.Position
+	endPosition := startPosition
+
+	// the last byte that is not zero holds the trailing bits
+	for i := 0; i < o.Size; i++ {
+		if b.F(8) != 0 {
+			endPosition = startPosition + i*8
+		}
 	}
 
-	b.Position -= 8
+	b.Position = endPosition
 }
-- 
2.43.0


From 49a521cf198d72ba585fc4b9ca31dba2c9d8c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 016/161] fix: metadata and reserved OBUs are skipped

---
 internal/obu/obu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index e86fd03..dc2daa2 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -74,8 +74,12 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 		o.paddingObu(b)
 	case header.OBU_TILE_GROUP:
 		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader)
-	default:
+	case header.OBU_TILE_LIST:
 		panic("not implemented")
+	default:
+		// metadata is optional, reserved types are ignored
+		b.Position = b.Position + o.Size*8
+		return
 	}
 
 	payloadBits := b.Position - startPosition
-- 
2.43.0


From 7a4c53565f8c81e0c242965ee973c5f5005fa3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 017/161] fix: the decoding state lasts for the whole
 bitstream, not one frame unit

---
 internal/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 0d9035c..7b91e21 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -16,6 +16,7 @@ type Parser struct {
 	SequenceHeader     sequenceheader.SequenceHeader
 	UncompressedHeader uncompressedheader.UncompressedHeader
 	obus               []obu.Obu
+	state              state.State
 }
 
 func NewParser(b *bitstream.BitStream) Parser {
@@ -38,14 +39,13 @@ func (p *Parser) temporalUnit(sz int) {
 
 // frame_unit( sz )
 func (p *Parser) frameUnit(sz int) {
-	state := state.State{}
 	for sz > 0 {
 		obuLength := p.bitStream.Leb128()
 		sz -= p.bitStream.Leb128Bytes
 
 		logger.Logger.Info("Starting obu parsing process...", zap.Int("sz", sz))
 
-		o := obu.NewObu(obuLength, &state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
+		o := obu.NewObu(obuLength, &p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
 		p.obus = append(p.obus, o)
 
 		switch o.Header.Type {
-- 
2.43.0


From 679edf4e2ecf0e90ed151830d6a87a6407499f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 018/161] fix: every tile adapts its own copy of the frame
 probabilities

---
 internal/tilegroup/tile_group.go | 228 +++++++++++++++++--------------
 internal/tilegroup/util.go       |  36 +++++
 2 files changed, 165 insertions(+), 99 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 45669ac..8fdd63e 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -477,105 +477,135 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF
-
-	state.TileYModeCdf = state.YModeCdf
-	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
-	state.TileUVModeCflAllowedCdf = state.UVModeCflAllowedCdf
-	state.TileAngleDeltaCdf = state.AngleDeltaCdf
-	state.TileIntrabcCdf = state.IntrabcCdf
-	state.TilePartitionW8Cdf = state.PartitionW8Cdf
-	state.TilePartitionW16Cdf = state.PartitionW16Cdf
-	state.TilePartitionW32Cdf = state.PartitionW32Cdf
-	state.TilePartitionW64Cdf = state.PartitionW64Cdf
-	state.TilePartitionW128Cdf = state.PartitionW128Cdf
-	state.TileSegmentIdCdf = state.SegmentIdCdf
-	state.TileSegmentIdPredictedCdf = state.SegmentIdPredictedCdf
-	state.TileTx8x8Cdf = state.Tx8x8Cdf
-	state.TileTx16x16Cdf = state.Tx16x16Cdf
-	state.TileTx32x32Cdf = state.Tx32x32Cdf
-	state.TileTx64x64Cdf = state.Tx64x64Cdf
-	state.TileTxfmSplitCdf = state.TxfmSplitCdf
-	state.TileFilterIntraModeCdf = state.FilterIntraModeCdf
-	state.TileFilterIntraCdf = state.FilterIntraCdf
-	state.TileInterpFilterCdf = state.InterpFilterCdf
-	state.TileMotionModeCdf = state.MotionModeCdf
-	state.TileNewMvCdf = state.NewMvCdf
-	state.TileZeroMvCdf = state.ZeroMvCdf
-	state.TileRefMvCdf = state.RefMvCdf
-	state.TileCompoundModeCdf = state.CompoundModeCdf
-	state.TileDrlModeCdf = state.DrlModeCdf
-	state.TileIsInterCdf = state.IsInterCdf
-	state.TileCompModeCdf = state.CompModeCdf
-	state.TileSkipModeCdf = state.SkipModeCdf
-	state.TileSkipCdf = state.SkipCdf
-	state.TileCompRefCdf = state.CompRefCdf
-	state.TileCompBwdRefCdf = state.CompBwdRefCdf
-	state.TileSingleRefCdf = state.SingleRefCdf
-	state.TileMvJointCdf = state.MvJointCdf
-	state.TileMvClassCdf = state.MvClassCdf
-	state.TileMvClass0BitCdf = state.MvClass0BitCdf
-	state.TileMvFrCdf = state.MvFrCdf
-	state.TileMvClass0FrCdf = state.MvClass0FrCdf
-	state.TileMvClass0HpCdf = state.MvClass0HpCdf
-	state.TileMvSignCdf = state.MvSignCdf
-	state.TileMvBitCdf = state.MvBitCdf
-	state.TileMvHpCdf = state.MvHpCdf
-	state.TilePaletteYModeCdf = state.PaletteYModeCdf
-	state.TilePaletteUVModeCdf = state.PaletteUVModeCdf
-	state.TilePaletteUVSizeCdf = state.PaletteUVSizeCdf
-	state.TilePaletteSize2YColorCdf = state.PaletteSize2YColorCdf
-	state.TilePaletteSize2UVColorCdf = state.PaletteSize2UVColorCdf
-	state.TilePaletteSize3YColorCdf = state.PaletteSize3YColorCdf
-	state.TilePaletteSize3UVColorCdf = state.PaletteSize3UVColorCdf
-	state.TilePaletteSize4YColorCdf = state.PaletteSize4YColorCdf
-	state.TilePaletteSize4UVColorCdf = state.PaletteSize4UVColorCdf
-	state.TilePaletteSize5YColorCdf = state.PaletteSize5YColorCdf
-	state.TilePaletteSize5UVColorCdf = state.PaletteSize5UVColorCdf
-	state.TilePaletteSize6YColorCdf = state.PaletteSize6YColorCdf
-	state.TilePaletteSize6UVColorCdf = state.PaletteSize6UVColorCdf
-	state.TilePaletteSize7YColorCdf = state.PaletteSize7YColorCdf
-	state.TilePaletteSize7UVColorCdf = state.PaletteSize7UVColorCdf
-	state.TilePaletteSize8YColorCdf = state.PaletteSize8YColorCdf
-	state.TilePaletteSize8UVColorCdf = state.PaletteSize8UVColorCdf
-
-	state.TileDeltaQCdf = state.DeltaQCdf
-	state.TileDeltaLFCdf = state.DeltaLFCdf
-	state.TileDeltaLFMultiCdf = state.DeltaLFMultiCdf
-	state.TileIntraTxTypeSet1Cdf = state.IntraTxTypeSet1Cdf
-	state.TileIntraTxTypeSet2Cdf = state.IntraTxTypeSet2Cdf
-	state.TileInterTxTypeSet1Cdf = state.InterTxTypeSet1Cdf
-	state.TileInterTxTypeSet2Cdf = state.InterTxTypeSet2Cdf
-	state.TileInterTxTypeSet3Cdf = state.InterTxTypeSet3Cdf
-	state.TileUseObmcCdf = state.UseObmcCdf
-	state.TileInterIntraCdf = state.InterIntraCdf
-	state.TileCompRefTypeCdf = state.CompRefTypeCdf
-	state.TileCflSignCdf = state.CflSignCdf
-	state.TileUniCompRefCdf = state.UniCompRefCdf
-	state.TileWedgeInterIntraCdf = state.WedgeInterIntraCdf
-	state.TileCompGroupIdxCdf = state.CompGroupIdxCdf
-	state.TileCompoundIdxCdf = state.CompoundIdxCdf
-	state.TileCompoundTypeCdf = state.CompoundTypeCdf
-	state.TileInterIntraModeCdf = state.InterIntraModeCdf
-	state.TileWedgeIndexCdf = state.WedgeIndexCdf
-	state.TileCflAlphaCdf = state.CflAlphaCdf
-	state.TileUseWienerCdf = state.UseWienerCdf
-	state.TileUseSgrprojCdf = state.UseSgrprojCdf
-	state.TileRestorationTypeCdf = state.RestorationTypeCdf
-
-	state.TileTxbSkipCdf = state.TxbSkipCdf
-	state.TileEobPt16Cdf = state.EobPt16Cdf
-	state.TileEobPt32Cdf = state.EobPt32Cdf
-	state.TileEobPt64Cdf = state.EobPt64Cdf
-	state.TileEobPt128Cdf = state.EobPt128Cdf
-	state.TileEobPt256Cdf = state.EobPt256Cdf
-	state.TileEobPt512Cdf = state.EobPt512Cdf
-	state.TileEobPt1024Cdf = state.EobPt1024Cdf
-	state.TileEobExtraCdf = state.EobExtraCdf
-	state.TileDcSignCdf = state.DcSignCdf
-	state.TileCoeffBaseEobCdf = state.CoeffBaseEobCdf
-	state.TileCoeffBaseCdf = state.CoeffBaseCdf
-	state.TileCoeffBrCdf = state.CoeffBrCdf
+	state.TileIntraFrameYModeCdf = cloneCdf3(uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF)
+
+	state.TileYModeCdf = cloneCdf2(state.YModeCdf)
+	state.TileUVModeCflNotAllowedCdf = cloneCdf2(state.UVModeCflNotAllowedCdf)
+	state.TileUVModeCflAllowedCdf = cloneCdf2(state.UVModeCflAllowedCdf)
+	state.TileAngleDeltaCdf = cloneCdf2(state.AngleDeltaCdf)
+	state.TileIntrabcCdf = cloneCdf1(state.IntrabcCdf)
+	state.TilePartitionW8Cdf = cloneCdf2(state.PartitionW8Cdf)
+	state.TilePartitionW16Cdf = cloneCdf2(state.PartitionW16Cdf)
+	state.TilePartitionW32Cdf = cloneCdf2(state.PartitionW32Cdf)
+	state.TilePartitionW64Cdf = cloneCdf2(state.PartitionW64Cdf)
+	state.TilePartitionW128Cdf = cloneCdf2(state.PartitionW128Cdf)
+	state.TileSegmentIdCdf = cloneCdf2(state.SegmentIdCdf)
+	state.TileSegmentIdPredictedCdf = cloneCdf2(state.SegmentIdPredictedCdf)
+	state.TileTx8x8Cdf = cloneCdf2(state.Tx8x8Cdf)
+	state.TileTx16x16Cdf = cloneCdf2(state.Tx16x16Cdf)
+	state.TileTx32x32Cdf = cloneCdf2(state.Tx32x32Cdf)
+	state.TileTx64x64Cdf = cloneCdf2(state.Tx64x64Cdf)
+	state.TileTxfmSplitCdf = cloneCdf2(state.TxfmSplitCdf)
+	state.TileFilterIntraModeCdf = cloneCdf1(state.FilterIntraModeCdf)
+	state.TileFilterIntraCdf = cloneCdf2(state.FilterIntraCdf)
+	state.TileInterpFilterCdf = cloneCdf2(state.InterpFilterCdf)
+	state.TileMotionModeCdf = cloneCdf2(state.MotionModeCdf)
+	state.TileNewMvCdf = cloneCdf2(state.NewMvCdf)
+	state.TileZeroMvCdf = cloneCdf2(state.ZeroMvCdf)
+	state.TileRefMvCdf = cloneCdf2(state.RefMvCdf)
+	state.TileCompoundModeCdf = cloneCdf2(state.CompoundModeCdf)
+	state.TileDrlModeCdf = cloneCdf2(state.DrlModeCdf)
+	state.TileIsInterCdf = cloneCdf2(state.IsInterCdf)
+	state.TileCompModeCdf = cloneCdf2(state.CompModeCdf)
+	state.TileSkipModeCdf = cloneCdf2(state.SkipModeCdf)
+	state.TileSkipCdf = cloneCdf2(state.SkipCdf)
+	state.TileCompRefCdf = cloneCdf3(state.CompRefCdf)
+	state.TileCompBwdRefCdf = cloneCdf3(state.CompBwdRefCdf)
+	state.TileSingleRefCdf = cloneCdf3(state.SingleRefCdf)
+	for i := range state.MvJointCdf {
+		state.TileMvJointCdf[i] = cloneCdf1(state.MvJointCdf[i])
+	}
+	for i := range state.MvClassCdf {
+		state.TileMvClassCdf[i] = cloneCdf2(state.MvClassCdf[i])
+	}
+	for i := range state.MvClass0BitCdf {
+		for j := range state.MvClass0BitCdf[i] {
+			state.TileMvClass0BitCdf[i][j] = cloneCdf1(state.MvClass0BitCdf[i][j])
+		}
+	}
+	for i := range state.MvFrCdf {
+		state.TileMvFrCdf[i] = cloneCdf2(state.MvFrCdf[i])
+	}
+	for i := range state.MvClass0FrCdf {
+		state.TileMvClass0FrCdf[i] = cloneCdf3(state.MvClass0FrCdf[i])
+	}
+	for i := range state.MvClass0HpCdf {
+		for j := range state.MvClass0HpCdf[i] {
+			state.TileMvClass0HpCdf[i][j] = cloneCdf1(state.MvClass0HpCdf[i][j])
+		}
+	}
+	for i := range state.MvSignCdf {
+		for j := range state.MvSignCdf[i] {
+			state.TileMvSignCdf[i][j] = cloneCdf1(state.MvSignCdf[i][j])
+		}
+	}
+	for i := range state.MvBitCdf {
+		for j := range state.MvBitCdf[i] {
+			state.TileMvBitCdf[i][j] = cloneCdf2(state.MvBitCdf[i][j])
+		}
+	}
+	for i := range state.MvHpCdf {
+		for j := range state.MvHpCdf[i] {
+			state.TileMvHpCdf[i][j] = cloneCdf1(state.MvHpCdf[i][j])
+		}
+	}
+	state.TilePaletteYModeCdf = cloneCdf3(state.PaletteYModeCdf)
+	state.TilePaletteUVModeCdf = cloneCdf2(state.PaletteUVModeCdf)
+	state.TilePaletteUVSizeCdf = cloneCdf2(state.PaletteUVSizeCdf)
+	state.TilePaletteSize2YColorCdf = cloneCdf2(state.PaletteSize2YColorCdf)
+	state.TilePaletteSize2UVColorCdf = cloneCdf2(state.PaletteSize2UVColorCdf)
+	state.TilePaletteSize3YColorCdf = cloneCdf2(state.PaletteSize3YColorCdf)
+	state.TilePaletteSize3UVColorCdf = cloneCdf2(state.PaletteSize3UVColorCdf)
+	state.TilePaletteSize4YColorCdf = cloneCdf2(state.PaletteSize4YColorCdf)
+	state.TilePaletteSize4UVColorCdf = cloneCdf2(state.PaletteSize4UVColorCdf)
+	state.TilePaletteSize5YColorCdf = cloneCdf2(state.PaletteSize5YColorCdf)
+	state.TilePaletteSize5UVColorCdf = cloneCdf2(state.PaletteSize5UVColorCdf)
+	state.TilePaletteSize6YColorCdf = cloneCdf2(state.PaletteSize6YColorCdf)
+	state.TilePaletteSize6UVColorCdf = cloneCdf2(state.PaletteSize6UVColorCdf)
+	state.TilePaletteSize7YColorCdf = cloneCdf2(state.PaletteSize7YColorCdf)
+	state.TilePaletteSize7UVColorCdf = cloneCdf2(state.PaletteSize7UVColorCdf)
+	state.TilePaletteSize8YColorCdf = cloneCdf2(state.PaletteSize8YColorCdf)
+	state.TilePaletteSize8UVColorCdf = cloneCdf2(state.PaletteSize8UVColorCdf)
+
+	state.TileDeltaQCdf = cloneCdf1(state.DeltaQCdf)
+	state.TileDeltaLFCdf = cloneCdf1(state.DeltaLFCdf)
+	for i := range state.DeltaLFMultiCdf {
+		state.TileDeltaLFMultiCdf[i] = cloneCdf1(state.DeltaLFMultiCdf[i])
+	}
+	state.TileIntraTxTypeSet1Cdf = cloneCdf3(state.IntraTxTypeSet1Cdf)
+	state.TileIntraTxTypeSet2Cdf = cloneCdf3(state.IntraTxTypeSet2Cdf)
+	state.TileInterTxTypeSet1Cdf = cloneCdf2(state.InterTxTypeSet1Cdf)
+	state.TileInterTxTypeSet2Cdf = cloneCdf1(state.InterTxTypeSet2Cdf)
+	state.TileInterTxTypeSet3Cdf = cloneCdf2(state.InterTxTypeSet3Cdf)
+	state.TileUseObmcCdf = cloneCdf2(state.UseObmcCdf)
+	state.TileInterIntraCdf = cloneCdf2(state.InterIntraCdf)
+	state.TileCompRefTypeCdf = cloneCdf2(state.CompRefTypeCdf)
+	state.TileCflSignCdf = cloneCdf1(state.CflSignCdf)
+	state.TileUniCompRefCdf = cloneCdf3(state.UniCompRefCdf)
+	state.TileWedgeInterIntraCdf = cloneCdf2(state.WedgeInterIntraCdf)
+	state.TileCompGroupIdxCdf = cloneCdf2(state.CompGroupIdxCdf)
+	state.TileCompoundIdxCdf = cloneCdf2(state.CompoundIdxCdf)
+	state.TileCompoundTypeCdf = cloneCdf2(state.CompoundTypeCdf)
+	state.TileInterIntraModeCdf = cloneCdf2(state.InterIntraModeCdf)
+	state.TileWedgeIndexCdf = cloneCdf2(state.WedgeIndexCdf)
+	state.TileCflAlphaCdf = cloneCdf2(state.CflAlphaCdf)
+	state.TileUseWienerCdf = cloneCdf1(state.UseWienerCdf)
+	state.TileUseSgrprojCdf = cloneCdf1(state.UseSgrprojCdf)
+	state.TileRestorationTypeCdf = cloneCdf1(state.RestorationTypeCdf)
+
+	state.TileTxbSkipCdf = cloneCdf3(state.TxbSkipCdf)
+	state.TileEobPt16Cdf = cloneCdf3(state.EobPt16Cdf)
+	state.TileEobPt32Cdf = cloneCdf3(state.EobPt32Cdf)
+	state.TileEobPt64Cdf = cloneCdf3(state.EobPt64Cdf)
+	state.TileEobPt128Cdf = cloneCdf3(state.EobPt128Cdf)
+	state.TileEobPt256Cdf = cloneCdf3(state.EobPt256Cdf)
+	state.TileEobPt512Cdf = cloneCdf2(state.EobPt512Cdf)
+	state.TileEobPt1024Cdf = cloneCdf2(state.EobPt1024Cdf)
+	state.TileEobExtraCdf = cloneCdf4(state.EobExtraCdf)
+	state.TileDcSignCdf = cloneCdf3(state.DcSignCdf)
+	state.TileCoeffBaseEobCdf = cloneCdf4(state.CoeffBaseEobCdf)
+	state.TileCoeffBaseCdf = cloneCdf4(state.CoeffBaseCdf)
+	state.TileCoeffBrCdf = cloneCdf4(state.CoeffBrCdf)
 }
 
 // 8.2.4 Exit process for symbol decoder
diff --git a/internal/tilegroup/util.go b/internal/tilegroup/util.go
index ed3ac77..10ee205 100644
--- a/internal/tilegroup/util.go
+++ b/internal/tilegroup/util.go
@@ -38,3 +38,39 @@ func isInsideFilterRegion(candidateR int, candidateC int, state *state.State) bo
 		candidateR >= rowStart &&
 		candidateR < rowEnd
 }
+
+// The tile CDFs are copies of the frame CDFs with the symbol counters at 0.
+func cloneCdf1(cdf []int) []int {
+	if len(cdf) == 0 {
+		return nil
+	}
+
+	clone := make([]int, len(cdf))
+	copy(clone, cdf)
+	clone[len(clone)-1] = 0
+	return clone
+}
+
+func cloneCdf2(cdfs [][]int) [][]int {
+	clone := make([][]int, len(cdfs))
+	for i := range cdfs {
+		clone[i] = cloneCdf1(cdfs[i])
+	}
+	return clone
+}
+
+func cloneCdf3(cdfs [][][]int) [][][]int {
+	clone := make([][][]int, len(cdfs))
+	for i := range cdfs {
+		clone[i] = cloneCdf2(cdfs[i])
+	}
+	return clone
+}
+
+func cloneCdf4(cdfs [][][][]int) [][][][]int {
+	clone := make([][][][]int, len(cdfs))
+	for i := range cdfs {
+		clone[i] = cloneCdf3(cdfs[i])
+	}
+	return clone
+}
-- 
2.43.0


From 46e17f1b1da781027e19012ade5dc101eca1e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 019/161] fix: carry the adapted compound reference type
 probabilities over

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 8fdd63e..c18f9a9 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -439,7 +439,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.InterTxTypeSet3Cdf = state.SavedInterTxTypeSet3Cdf
 	state.UseObmcCdf = state.SavedUseObmcCdf
 	state.InterIntraCdf = state.SavedInterIntraCdf
-	state.CompRefTypeCdf = state.CompRefTypeCdf
+	state.CompRefTypeCdf = state.SavedCompRefTypeCdf
 	state.CflSignCdf = state.SavedCflSignCdf
 	state.UniCompRefCdf = state.SavedUniCompRefCdf
 	state.WedgeInterIntraCdf = state.SavedWedgeInterIntraCdf
@@ -688,7 +688,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedInterTxTypeSet3Cdf = state.TileInterTxTypeSet3Cdf
 		state.SavedUseObmcCdf = state.TileUseObmcCdf
 		state.SavedInterIntraCdf = state.TileInterIntraCdf
-		state.SavedCompRefTypeCdf = state.CompRefTypeCdf
+		state.SavedCompRefTypeCdf = state.TileCompRefTypeCdf
 		state.SavedCflSignCdf = state.TileCflSignCdf
 		state.SavedUniCompRefCdf = state.TileUniCompRefCdf
 		state.SavedWedgeInterIntraCdf = state.TileWedgeInterIntraCdf
-- 
2.43.0


From 364ee488a4d85334080c1645a451e66c5af7d117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 020/161] fix: intra frame luma mode probabilities adapt across
 frames like the others

---
 internal/state/state.go            | 81 ++++++++++++++++--------------
 internal/tilegroup/tile_group.go   |  4 +-
 internal/uncompressedheader/cdf.go |  5 +-
 3 files changed, 48 insertions(+), 42 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bc3aaf0..e7907f9 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -44,45 +44,44 @@ type State struct {
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded           [3][13][13]bool
-	FrameRestorationType   []int
-	LoopRestorationSize    [3]int
-	AvailU                 bool
-	AvailL                 bool
-	AvailUChroma           bool
-	AvailLChroma           bool
-	RefFrame               [2]int
-	RefFrames              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	RefFrameWidth          [shared.NUM_REF_FRAMES]int
-	RefFrameHeight         [shared.NUM_REF_FRAMES]int
-	RefRenderWidth         [shared.NUM_REF_FRAMES]int
-	RefRenderHeight        [shared.NUM_REF_FRAMES]int
-	RefMiCols              [shared.NUM_REF_FRAMES]int
-	RefMiRows              [shared.NUM_REF_FRAMES]int
-	RefSubsamplingX        [shared.NUM_REF_FRAMES]int
-	RefSubsamplingY        [shared.NUM_REF_FRAMES]int
-	RefBitDepth            [shared.NUM_REF_FRAMES]int
-	RefUpscaledWidth       [8]int
-	SavedOrderHints        [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
-	CurrFrame              [3][16][16]int
-	SymbolMaxBits          int
-	SymbolValue            int
-	SymbolRange            int
-	RefFrameTypes          [7]int
-	Skip                   int
-	IsInter                int
-	CdefSize4              int
-	CdefFrame              [3][16][16]int
-	UpscaledCurrFrame      [3][9][9]int
-	UpscaledCdefFrame      [3][9][9]int
-	LrFrame                [3][9][9]int
-	TileIntraFrameYModeCdf [][][]int
-	MfMvs                  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedMvs               [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedRefFrames         [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	MfRefFrames            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
-	SavedSegmentIds        [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	BlockDecoded         [3][13][13]bool
+	FrameRestorationType []int
+	LoopRestorationSize  [3]int
+	AvailU               bool
+	AvailL               bool
+	AvailUChroma         bool
+	AvailLChroma         bool
+	RefFrame             [2]int
+	RefFrames            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	RefFrameWidth        [shared.NUM_REF_FRAMES]int
+	RefFrameHeight       [shared.NUM_REF_FRAMES]int
+	RefRenderWidth       [shared.NUM_REF_FRAMES]int
+	RefRenderHeight      [shared.NUM_REF_FRAMES]int
+	RefMiCols            [shared.NUM_REF_FRAMES]int
+	RefMiRows            [shared.NUM_REF_FRAMES]int
+	RefSubsamplingX      [shared.NUM_REF_FRAMES]int
+	RefSubsamplingY      [shared.NUM_REF_FRAMES]int
+	RefBitDepth          [shared.NUM_REF_FRAMES]int
+	RefUpscaledWidth     [8]int
+	SavedOrderHints      [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
+	CurrFrame            [3][16][16]int
+	SymbolMaxBits        int
+	SymbolValue          int
+	SymbolRange          int
+	RefFrameTypes        [7]int
+	Skip                 int
+	IsInter              int
+	CdefSize4            int
+	CdefFrame            [3][16][16]int
+	UpscaledCurrFrame    [3][9][9]int
+	UpscaledCdefFrame    [3][9][9]int
+	LrFrame              [3][9][9]int
+	MfMvs                [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	SavedMvs             [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	SavedRefFrames       [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	MfRefFrames          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SavedGmParams        [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
+	SavedSegmentIds      [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
@@ -98,6 +97,7 @@ type State struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
@@ -183,6 +183,7 @@ type State struct {
 	UseSgrprojCdf      []int
 	RestorationTypeCdf []int
 
+	TileIntraFrameYModeCdf     [][][]int
 	TileYModeCdf               [][]int
 	TileUVModeCflNotAllowedCdf [][]int
 	TileUVModeCflAllowedCdf    [][]int
@@ -281,6 +282,7 @@ type State struct {
 	TileCoeffBaseCdf    [][][][]int
 	TileCoeffBrCdf      [][][][]int
 
+	SavedIntraFrameYModeCdf     [][][]int
 	SavedYModeCdf               [][]int
 	SavedUVModeCflNotAllowedCdf [][]int
 	SavedUVModeCflAllowedCdf    [][]int
@@ -398,6 +400,7 @@ type MemoryArea struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c18f9a9..c430767 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -369,6 +369,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 // 7.7. Frame end update CDF process
 // frame_end_update_cdf( )
 func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
+	state.IntraFrameYModeCdf = state.SavedIntraFrameYModeCdf
 	state.YModeCdf = state.SavedYModeCdf
 	state.UVModeCflNotAllowedCdf = state.SavedUVModeCflNotAllowedCdf
 	state.UVModeCflAllowedCdf = state.SavedUVModeCflAllowedCdf
@@ -477,7 +478,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = cloneCdf3(uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF)
+	state.TileIntraFrameYModeCdf = cloneCdf3(state.IntraFrameYModeCdf)
 
 	state.TileYModeCdf = cloneCdf2(state.YModeCdf)
 	state.TileUVModeCflNotAllowedCdf = cloneCdf2(state.UVModeCflNotAllowedCdf)
@@ -618,6 +619,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 	b.Position += util.Max(0, state.SymbolMaxBits)
 
 	if !uh.DisableFrameEndUpdateCdf && state.TileNum == uh.TileInfo.ContextUpdateTileId {
+		state.SavedIntraFrameYModeCdf = state.TileIntraFrameYModeCdf
 		state.SavedYModeCdf = state.TileYModeCdf
 		state.SavedUVModeCflNotAllowedCdf = state.TileUVModeCflNotAllowedCdf
 		state.SavedUVModeCflAllowedCdf = state.TileUVModeCflAllowedCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e4e5d9..8d5ae23 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -7,6 +7,7 @@ import (
 
 // init_non_coeff_cdfs( )
 func initNonCoeffCdfs(state *state.State) {
+	state.IntraFrameYModeCdf = DEFAULT_INTRA_FRAME_Y_MODE_CDF
 	state.YModeCdf = DEFAULT_Y_MODE_CDF
 	state.UVModeCflNotAllowedCdf = DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
 	state.UVModeCflAllowedCdf = DEFAULT_UV_MODE_CFL_ALLOWED_CDF
@@ -137,6 +138,7 @@ func initCoeffCdfs(state *state.State, uh UncompressedHeader) {
 func SaveCdfs(ctx int, s *state.State) {
 	memoryArea := state.MemoryArea{}
 
+	memoryArea.IntraFrameYModeCdf = s.IntraFrameYModeCdf
 	memoryArea.YModeCdf = s.YModeCdf
 	memoryArea.UVModeCflNotAllowedCdf = s.UVModeCflNotAllowedCdf
 	memoryArea.UVModeCflAllowedCdf = s.UVModeCflAllowedCdf
@@ -241,6 +243,7 @@ func SaveCdfs(ctx int, s *state.State) {
 func LoadCdfs(ctx int, s *state.State) {
 	memoryArea := s.Memory[ctx]
 
+	s.IntraFrameYModeCdf = memoryArea.IntraFrameYModeCdf
 	s.YModeCdf = memoryArea.YModeCdf
 	s.UVModeCflNotAllowedCdf = memoryArea.UVModeCflNotAllowedCdf
 	s.UVModeCflAllowedCdf = memoryArea.UVModeCflAllowedCdf
@@ -338,8 +341,6 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.CoeffBaseEobCdf = memoryArea.CoeffBaseEobCdf
 	s.CoeffBaseCdf = memoryArea.CoeffBaseCdf
 	s.CoeffBrCdf = memoryArea.CoeffBrCdf
-
-	// TODO: set last entry of every array to 0
 }
 
 var DEFAULT_INTER_TX_TYPE_SET2_CDF = []int{
-- 
2.43.0


From b333367c85a473bf15f8d8618d7dbefb0e27e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 021/161] fix: tile rows are counted in superblock rows for
 128x128 superblocks

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 1a9cd19..3bbcf17 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -22,7 +22,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 	sbRows := (s.MiRows + 15) >> 4
 	if sh.Use128x128SuperBlock {
-		sbCols = (s.MiRows + 31) >> 5
+		sbRows = (s.MiRows + 31) >> 5
 	}
 
 	sbShift := 4
-- 
2.43.0


From 54aeaf48f3acd8d6ba9a2bb951e2d0180ecbbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 022/161] fix: read the tile row increments up to the maximum

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 3bbcf17..fcf37a4 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -67,7 +67,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 		minLog2TileRows := util.Max(minLog2Tiles-s.TileColsLog2, 0)
 		s.TileRowsLog2 = minLog2TileRows
-		for s.TileRowsLog2 > maxLog2TileRows {
+		for s.TileRowsLog2 < maxLog2TileRows {
 			incrementTileRowsLog2 := b.F(1) != 0
 			if incrementTileRowsLog2 {
 				s.TileRowsLog2++
-- 
2.43.0


From fbef768336dd651b885e9ec64c27a3566a2f6e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 023/161] fix: order hints are compared when the sequence
 enables them

---
 internal/uncompressedheader/uncompressed_header.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 75c362f..3f141f2 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -47,7 +47,6 @@ type UncompressedHeader struct {
 	DeltaLfRes                 int
 	DeltaLfMulti               int
 	BaseQIdx                   int
-	EnableOrderHint            bool
 	OrderHintBits              int
 	UseSuperRes                bool
 	SuperResDenom              int
@@ -568,7 +567,7 @@ func (u *UncompressedHeader) readInterpolationFilter(b *bitstream.BitStream) {
 
 // get_relative_dist()
 func (u *UncompressedHeader) GetRelativeDist(a int, b int, sh sequenceheader.SequenceHeader) int {
-	if !u.EnableOrderHint {
+	if !sh.EnableOrderHint {
 		return 0
 	}
 
@@ -1017,7 +1016,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
-	if u.FrameIsIntra || u.ReferenceSelect || u.EnableOrderHint {
+	if u.FrameIsIntra || !u.ReferenceSelect || !sh.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
 		forwardIdx := -1
-- 
2.43.0


From 47166ebc49f938bf5bdc65f3828d29a3e21bd9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 024/161] fix: skip mode uses the nearest backward reference

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 3f141f2..f121af8 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1031,7 +1031,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 					forwardHint = refHint
 				}
 			} else if u.GetRelativeDist(refHint, u.OrderHint, sh) > 0 {
-				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) > 0 {
+				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) < 0 {
 					backwardIdx = i
 					backwardHint = refHint
 				}
-- 
2.43.0


From d03469be8b31ff46485c4a6f378b91dab1b44e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 025/161] fix: give the skip mode reference pair its two
 entries

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index f121af8..37104d8 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -86,7 +86,7 @@ type UncompressedHeader struct {
 	RefFrameIdx                [7]int
 	OrderHint                  int
 	OrderHints                 [8]int
-	SkipModeFrame              []int
+	SkipModeFrame              [2]int
 	SkipModePresent            int
 	SegQMLevel                 [3][shared.MAX_SEGMENTS]int
 	DisableCdfUpdate           bool
-- 
2.43.0


From adc1a32e04b83dc12df563d74b35e5c00270ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 026/161] fix: spatial layers are in the upper half of the
 operating point

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 37104d8..77824d9 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -286,7 +286,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				if sh.DecoderModelPresentForThisOp[opNum] {
 					opPtIdc := sh.OperatingPointIdc[opNum]
 					inTemporalLayer := ((opPtIdc >> h.ExtensionHeader.TemporalID) & 1) != 0
-					inSpatialLayer := ((opPtIdc >> h.ExtensionHeader.SpatialID) & 1) != 0
+					inSpatialLayer := ((opPtIdc >> (h.ExtensionHeader.SpatialID + 8)) & 1) != 0
 
 					if opPtIdc == 0 || (inTemporalLayer && inSpatialLayer) {
 						n := sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne + 1
-- 
2.43.0


From bbd369589ea062b1cb4a9961b6e582fb023f709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 027/161] fix: give the buffer removal times room for every
 operating point

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 77824d9..65c78b2 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -158,7 +158,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	var refOrderHint [shared.NUM_REF_FRAMES]int
 	var orderHints [shared.REFS_PER_FRAME]int
 
-	bufferRemovalTime := []int{}
+	bufferRemovalTime := make([]int, sh.OperatingPointsCountMinusOne+1)
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
 	if sh.ReducedStillPictureHeader {
-- 
2.43.0


From 0e812cd6599b6c6d35bb7a603a7edeeba8fb1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 028/161] fix: give the coded reference order hints their eight
 entries

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 65c78b2..88356de 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -297,7 +297,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	ref_order_hint := []int{}
+	var ref_order_hint [shared.NUM_REF_FRAMES]int
 
 	u.UseRefFrameMvs = false
 
-- 
2.43.0


From f95d30353b218051a7d6e5acd86a96cc09f581fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 029/161] fix: give the expected frame ids their seven entries

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 88356de..e22561e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -319,7 +319,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	expectedFrameId := []int{}
+	var expectedFrameId [shared.REFS_PER_FRAME]int
 
 	if u.FrameIsIntra {
 		u.frameSize(b, s, sh)
-- 
2.43.0


From 371085c5eefb34b9684b4720a7f8a566890d7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 030/161] fix: reference indices are coded once

---
 internal/uncompressedheader/uncompressed_header.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index e22561e..cc4f578 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -345,7 +345,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
 			if !frameRefsShortSignaling {
 				u.RefFrameIdx[i] = b.F(3)
-				u.RefFrameIdx[i] = b.F(3)
 			}
 
 			if sh.FrameIdNumbersPresent {
-- 
2.43.0


From 1e05f045a92efe195acb41212dfd427a00d72de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 031/161] fix: every reference gets its own order hint and sign
 bias

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index cc4f578..a969bde 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -135,7 +135,7 @@ type UncompressedHeader struct {
 	ClipToRestrictedRange bool
 	RefreshFrameFlags     int
 	FrameToShowMapIdx     int
-	RefFrameSignBias      [3]bool
+	RefFrameSignBias      [8]bool
 }
 
 func NewUncompressedHeader(h header.Header, sh sequenceheader.SequenceHeader, b *bitstream.BitStream, s *state.State) UncompressedHeader {
@@ -380,7 +380,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			refFrame := shared.LAST_FRAME + 1
+			refFrame := shared.LAST_FRAME + i
 			hint := s.RefOrderHint[u.RefFrameIdx[i]]
 			u.OrderHints[refFrame] = hint
 			if !sh.EnableOrderHint {
-- 
2.43.0


From 7a8a8400ecd8f033e0f57e60a7f75c0fabef3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 032/161] fix: a shown key frame invalidates every reference

---
 internal/uncompressedheader/uncompressed_header.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a969bde..a9934a5 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -154,10 +154,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	var refValid [shared.NUM_REF_FRAMES]int
-	var refOrderHint [shared.NUM_REF_FRAMES]int
-	var orderHints [shared.REFS_PER_FRAME]int
-
 	bufferRemovalTime := make([]int, sh.OperatingPointsCountMinusOne+1)
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
@@ -221,12 +217,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	if u.FrameType == 0 && u.ShowFrame {
 		for i := 0; i < shared.NUM_REF_FRAMES; i++ {
-			refValid[i] = 0
-			refOrderHint[i] = 0
+			s.RefValid[i] = 0
+			s.RefOrderHint[i] = 0
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			orderHints[shared.LAST_FRAME+1] = 0
+			u.OrderHints[shared.LAST_FRAME+i] = 0
 		}
 	}
 
-- 
2.43.0


From 55f6fcdf7c77c8c263a2cfcf3322971443822011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 033/161] fix: screen content tools follow the sequence header

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a9934a5..f08b081 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -231,7 +231,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	if sh.SeqForceScreenContentTools == 2 {
 		u.AllowScreenContentTools = b.F(1)
 	} else {
-		u.AllowScreenContentTools = 1
+		u.AllowScreenContentTools = sh.SeqForceScreenContentTools
 	}
 
 	if util.Bool(u.AllowScreenContentTools) {
-- 
2.43.0


From 0e1481124bb73586f50750aff1efb4520bb5a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 034/161] fix: integer motion vectors follow the sequence
 header

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index f08b081..0875ae1 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -238,7 +238,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		if sh.SeqForceIntegerMv == 2 {
 			u.ForceIntegerMv = util.Bool(b.F(1))
 		} else {
-			u.ForceIntegerMv = true
+			u.ForceIntegerMv = util.Bool(sh.SeqForceIntegerMv)
 		}
 	} else {
 		u.ForceIntegerMv = false
-- 
2.43.0


From dfe1232e74537d0c6849e71bbdfd1607b0356602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 035/161] fix: only switch and shown key frames refresh every
 reference unconditionally

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 0875ae1..ee8cb44 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -297,7 +297,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	u.UseRefFrameMvs = false
 
-	if u.FrameType == 3 || u.FrameType == 0 || u.ShowFrame {
+	if u.FrameType == 3 || u.FrameType == 0 && u.ShowFrame {
 		u.RefreshFrameFlags = allFrames
 	} else {
 		u.RefreshFrameFlags = b.F(8)
-- 
2.43.0


From 73c47c7fe56693cedc160e904fb00b2608beb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 036/161] fix: record that an existing frame is shown

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index ee8cb44..b6954e1 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -165,9 +165,9 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		u.ShowFrame = true
 		u.ShowableFrame = false
 	} else {
-		showExistingFrame := util.Bool(b.F(1))
+		u.ShowExistingFrame = util.Bool(b.F(1))
 
-		if showExistingFrame {
+		if u.ShowExistingFrame {
 			u.FrameToShowMapIdx = b.F(3)
 
 			if sh.DecoderModelInfoPresent && !sh.TimingInfo.EqualPictureInterval {
-- 
2.43.0


From 31d79a105787e7e29d6bb7d118d0ee0b0ef1f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 037/161] fix: a shown existing key frame refreshes every
 reference

---
 internal/uncompressedheader/uncompressed_header.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index b6954e1..b1b142e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -25,7 +25,6 @@ type UncompressedHeader struct {
 	ShowableFrame              bool
 	ShowFrame                  bool
 	FrameType                  int
-	RefreshImageFlags          int
 	DisplayFrameId             int
 	FrameIdNumbersPresent      bool
 	AllowHighPrecisionMv       bool
@@ -174,7 +173,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.TemporalPointInfo(sh, b)
 			}
 
-			u.RefreshImageFlags = 0
+			u.RefreshFrameFlags = 0
 			if sh.FrameIdNumbersPresent {
 				u.DisplayFrameId = b.F(idLen)
 			}
@@ -182,7 +181,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			u.FrameType = s.RefFrameType[u.FrameToShowMapIdx]
 
 			if u.FrameType == shared.KEY_FRAME {
-				u.RefreshImageFlags = allFrames
+				u.RefreshFrameFlags = allFrames
 			}
 
 			if sh.FilmGrainParamsPresent {
-- 
2.43.0


From 4aa630826aecbf3b2a3e81073d9e082694fb7ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 038/161] fix: the render height defaults to the frame height

---
 internal/uncompressedheader/uncompressed_header.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index b1b142e..663d1e7 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -52,7 +52,6 @@ type UncompressedHeader struct {
 	FrameWidth                 int
 	FrameHeight                int
 	UpscaledWidth              int
-	UpscaledHeight             int
 	FrameSizeOverrideFlag      bool
 	DeltaQYDc                  int
 	DeltaQUAc                  int
@@ -545,7 +544,7 @@ func (u *UncompressedHeader) renderSize(b *bitstream.BitStream) {
 		u.RenderHeight = renderHeightMinusOne + 1
 	} else {
 		u.RenderWidth = u.UpscaledWidth
-		u.RenderHeight = u.UpscaledHeight
+		u.RenderHeight = u.FrameHeight
 	}
 }
 
-- 
2.43.0


From 82ad56e2642a2b1c6dc87917be8127d3633a0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 039/161] fix: no loop filter without loop filter parameters

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 663d1e7..4e6decf 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -837,7 +837,7 @@ func (u *UncompressedHeader) segFeatureActiveIdx(idx int, feature int, s *state.
 func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
 	if u.CodedLossless || u.AllowIntraBc {
 		u.LoopFilterLevel[0] = 0
-		u.LoopFilterLevel[1] = 1
+		u.LoopFilterLevel[1] = 0
 		u.LoopFilterRefDeltas[shared.INTRA_FRAME] = 1
 		u.LoopFilterRefDeltas[shared.LAST_FRAME] = 0
 		u.LoopFilterRefDeltas[shared.LAST2_FRAME] = 0
-- 
2.43.0


From 7bc6b827bb78dca1f0762b51b8ee0977ce35697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 040/161] fix: the loop filter sharpness has three bits

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 4e6decf..a371cc1 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -863,7 +863,7 @@ func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenc
 		}
 	}
 
-	u.LoopFilterSharpness = b.F(6)
+	u.LoopFilterSharpness = b.F(3)
 	u.LoopFilterDeltaEnabled = util.Bool(b.F(1))
 
 	if u.LoopFilterDeltaEnabled {
-- 
2.43.0


From 35f084d16cd768a416961d94122fd6a600887655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 041/161] fix: unsigned segmentation features have no sign bit

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a371cc1..45ba5b6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -735,7 +735,7 @@ func (u *UncompressedHeader) segmentationParams(b *bitstream.BitStream, s *state
 							featureValue = b.Su(1 + bitsToRead)
 							clippedValue = util.Clip3(-limit, limit, featureValue)
 						} else {
-							featureValue = b.Su(bitsToRead)
+							featureValue = b.F(bitsToRead)
 							clippedValue = util.Clip3(0, limit, featureValue)
 
 						}
-- 
2.43.0


From c1880109f499ad84df7b7454840029fa59bd72f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 042/161] fix: chroma planes use their own quantizer matrix
 levels

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 45ba5b6..b7abe2e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -434,8 +434,8 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.SegQMLevel[2][segmentId] = 15
 			} else {
 				u.SegQMLevel[0][segmentId] = u.Qmy
-				u.SegQMLevel[1][segmentId] = u.Qmy
-				u.SegQMLevel[2][segmentId] = u.Qmy
+				u.SegQMLevel[1][segmentId] = u.Qmu
+				u.SegQMLevel[2][segmentId] = u.Qmv
 			}
 		}
 	}
-- 
2.43.0


From 362ad9d871bcb4321912872fae675377f1434109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 043/161] fix: segment offsets apply to the current quantizer
 index

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index b7abe2e..eb0eb3b 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -814,7 +814,7 @@ func (u *UncompressedHeader) GetQIndex(ignoreDeltaQ int, segmentId int, s *state
 		qindex := u.BaseQIdx + data
 
 		if ignoreDeltaQ == 0 && u.DeltaQPresent {
-			qindex = s.CurrentQIndex
+			qindex = s.CurrentQIndex + data
 		}
 
 		return util.Clip3(0, 255, qindex)
-- 
2.43.0


From 75372695f9077841eda6cbda3b53e7f0125d856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 044/161] fix: global motion parameters are signed

---
 internal/uncompressedheader/uncompressed_header.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index eb0eb3b..e480383 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1141,10 +1141,14 @@ func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitst
 
 	mx := 1 << absBits
 	r := (s.PrevGmParams[ref][idx] >> precDiff) - sub
-	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(mx, r, b) << precDiff) + round
+	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(-mx, mx+1, r, b) << precDiff) + round
 }
 
-func (u *UncompressedHeader) decodeSignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
+func (u *UncompressedHeader) decodeSignedSubexpWithRef(low int, high int, r int, b *bitstream.BitStream) int {
+	return u.decodeUnsignedSubexpWithRef(high-low, r-low, b) + low
+}
+
+func (u *UncompressedHeader) decodeUnsignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
 	v := u.decodeSubexp(mx, b)
 	if (r << 1) <= mx {
 		return util.InverseRecenter(r, v)
-- 
2.43.0


From 38c0041105f629bdce43eda682f86acd911462c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 045/161] fix: read the parameters of global motion models

---
 .../uncompressedheader/uncompressed_header.go   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index e480383..eb225ec 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1105,6 +1105,23 @@ func (u *UncompressedHeader) globalMotionParams(b *bitstream.BitStream, s *state
 			typ = shared.IDENTITY
 		}
 		s.GmType[ref] = typ
+
+		if typ >= shared.ROTZOOM {
+			u.readGlobalParam(typ, ref, 2, b, s)
+			u.readGlobalParam(typ, ref, 3, b, s)
+			if typ == shared.AFFINE {
+				u.readGlobalParam(typ, ref, 4, b, s)
+				u.readGlobalParam(typ, ref, 5, b, s)
+			} else {
+				u.GmParams[ref][4] = -u.GmParams[ref][3]
+				u.GmParams[ref][5] = u.GmParams[ref][2]
+			}
+		}
+
+		if typ >= shared.TRANSLATION {
+			u.readGlobalParam(typ, ref, 0, b, s)
+			u.readGlobalParam(typ, ref, 1, b, s)
+		}
 	}
 
 }
-- 
2.43.0


From d05c9d41320f1302ab485cc96867371b111fe522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 046/161] fix: keep the frame ids of the references with the
 references

---
 internal/state/state.go                            | 1 +
 internal/tilegroup/decode_frame_wrapup.go          | 3 ++-
 internal/uncompressedheader/uncompressed_header.go | 7 +++----
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index e7907f9..6361ae6 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -381,6 +381,7 @@ type State struct {
 	SavedCoeffBaseCdf    [][][][]int
 	SavedCoeffBrCdf      [][][][]int
 	RefValid             [shared.NUM_REF_FRAMES]int
+	RefFrameId           [shared.NUM_REF_FRAMES]int
 
 	Memory [shared.NUM_REF_FRAMES]MemoryArea
 }
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 50c9f9a..425ff8b 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -107,6 +107,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
 			state.RefValid[i] = 1
+			state.RefFrameId[i] = uh.CurrentFrameId
 			state.RefUpscaledWidth[i] = uh.UpscaledWidth
 			state.RefFrameWidth[i] = uh.FrameWidth
 			state.RefFrameHeight[i] = uh.FrameHeight
@@ -204,7 +205,7 @@ func saveSegmentationParams(ctx int) {
 func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
 	// where does i really come from?
 	i := u.FrameToShowMapIdx
-	u.CurrentFrameId = u.RefFrameId[i]
+	u.CurrentFrameId = state.RefFrameId[i]
 	u.UpscaledWidth = state.RefUpscaledWidth[u.FrameToShowMapIdx]
 	u.FrameWidth = state.RefFrameWidth[u.FrameToShowMapIdx]
 	u.FrameHeight = state.RefFrameHeight[u.FrameToShowMapIdx]
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index eb225ec..9c3f09e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -67,7 +67,6 @@ type UncompressedHeader struct {
 	InterpolationFilter        int
 	PrevFrameId                int
 	CurrentFrameId             int
-	RefFrameId                 []int
 	TileInfo                   tileinfo.TileInfo
 	FramePresentationTime      int
 	PrimaryRefFrame            int
@@ -467,12 +466,12 @@ func (u *UncompressedHeader) markRefFrames(idLen int, state *state.State, sh seq
 
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if u.CurrentFrameId > (1 << diffLen) {
-			if u.RefFrameId[i] > u.CurrentFrameId ||
-				u.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId ||
+				state.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		} else {
-			if u.RefFrameId[i] > u.CurrentFrameId && u.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId && state.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		}
-- 
2.43.0


From 6ae55cfcb78868e1313b84699bb0b805eaa758eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 047/161] fix: the segment id prediction probabilities end at
 32768

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 8d5ae23..f0a2884 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1586,9 +1586,9 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 }
 
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
 }
 
 var DEFAULT_SEGMENT_ID_CDF = [][]int{
-- 
2.43.0


From dcf7cfbf722abc38a514ba2bf7ac0f3efac0d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 048/161] fix: restore the skip mode probabilities

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index f0a2884..f6a74e0 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1291,11 +1291,11 @@ var DEFAULT_SKIP_CDF = [][]int{
 }
 
 var DEFAULT_SKIP_MODE_CDF = [][]int{
-	{3262132621,
+	{32621,
 		32768, 00},
-	{2070820708,
+	{20708,
 		32768, 00},
-	{81278127,
+	{8127,
 		32768, 00},
 }
 
-- 
2.43.0


From 497fdfd7158875c289f3d0717e2a4a3e499a10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 049/161] fix: initialise the reference motion vector
 probabilities

---
 internal/uncompressedheader/cdf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index f6a74e0..45d989f 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -31,6 +31,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.MotionModeCdf = DEFAULT_MOTION_MODE_CDF
 	state.NewMvCdf = DEFAULT_NEW_MV_CDF
 	state.ZeroMvCdf = DFEAULT_ZERO_MV_CDF
+	state.RefMvCdf = DEFAULT_REF_MV_CDF
 	state.CompoundModeCdf = DEFAULT_COMPOUND_MODE_CDF
 	state.DrlModeCdf = DEFAULT_DRL_MODE_CDF
 	state.IsInterCdf = DEFAULT_IS_INTER_CDF
@@ -1585,6 +1586,15 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 		24320, 32768, 0},
 }
 
+var DEFAULT_REF_MV_CDF = [][]int{
+	{24035, 32768, 0},
+	{16630, 32768, 0},
+	{15339, 32768, 0},
+	{8386, 32768, 0},
+	{12222, 32768, 0},
+	{4676, 32768, 0},
+}
+
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
 	{128 * 128, 32768, 0},
 	{128 * 128, 32768, 0},
-- 
2.43.0


From 424d69e8483bcdec42cf1d16fc148f93de325443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 050/161] fix: drop a stray group of coefficient probabilities

---
 internal/uncompressedheader/cdf.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 45d989f..289ddb6 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -10708,16 +10708,6 @@ var DEFAULT_COEFF_BASE_CDF = [][][][][]int{
 				{
 					8192, 16384, 24576, 32768, 0},
 			},
-			{
-				{
-					9320, 22102, 27840, 32768, 0},
-				{
-					2795, 10410, 17361, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-			},
 			{
 				{
 					9320, 22102, 27840, 32768, 0},
-- 
2.43.0


From 4a8c5c10af6eba55fa3fd2b5536d9406c52c47e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 051/161] fix: take the skip context from the skip flags of the
 neighbours

---
 internal/tilegroup/intra_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index ee55ec4..05d44d4 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -174,10 +174,10 @@ func (t *TileGroup) readSkip(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	} else {
 		ctx := 0
 		if state.AvailU {
-			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+			ctx += t.Skips[state.MiRow-1][state.MiCol]
 		}
 		if state.AvailL {
-			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+			ctx += t.Skips[state.MiRow][state.MiCol-1]
 		}
 
 		t.Skip = symbol.ReadSymbol(state.TileSkipCdf[ctx], state, b, uh)
-- 
2.43.0


From 76145d8ff8374689af89f2dd11768cf2fb89f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 052/161] fix: clip the decoded segment id

---
 internal/tilegroup/intra_frame_mode_info.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 05d44d4..d5e1650 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -164,6 +164,7 @@ func (t *TileGroup) readSegmentId(b *bitstream.BitStream, uh uncompressedheader.
 
 		t.SegmentId = symbol.ReadSymbol(state.TileSegmentIdCdf[ctx], state, b, uh)
 		t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1)
+		t.SegmentId = util.Clip3(0, uh.LastActiveSegId, t.SegmentId)
 	}
 }
 
-- 
2.43.0


From 93bbf654119df7d5a74448bb56ab8de280a33076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 053/161] fix: read the coded number of cdef index bits and
 copy the index to the whole block

---
 internal/cdef/cdef.go                       | 3 +--
 internal/tilegroup/intra_frame_mode_info.go | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index 7d7ec02..fee8d68 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -1,8 +1,7 @@
 package cdef
 
 type Cdef struct {
-	CdefIdx  [][]int
-	CdefBits int
+	CdefIdx [][]int
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index d5e1650..0a41b8a 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -218,12 +218,12 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	c := state.MiCol & cdefMask4
 
 	if state.Cdef.CdefIdx[r][c] == -1 {
-		state.Cdef.CdefIdx[r][c] = literal.L(state.Cdef.CdefBits, state, b, uh)
+		state.Cdef.CdefIdx[r][c] = literal.L(uh.CdefBits, state, b, uh)
 		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
 		for i := r; i < r+h4; i += cdefSize4 {
-			for j := c; i < c+w4; i += cdefSize4 {
+			for j := c; j < c+w4; j += cdefSize4 {
 				state.Cdef.CdefIdx[i][j] = state.Cdef.CdefIdx[r][c]
 			}
 
-- 
2.43.0


From 900673802ec49a161e35103bb231aea081fad3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 054/161] fix: make room for the cdef indices of a superblock

---
 internal/cdef/cdef.go            | 24 ++++++++++++++----------
 internal/tilegroup/tile_group.go |  2 +-
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index fee8d68..b2d1570 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -5,19 +5,23 @@ type Cdef struct {
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
-	for cap(cdef.CdefIdx) < r+1 {
-		cdef.CdefIdx = append(cdef.CdefIdx, make([]int, 0))
-	}
+	cdef.set(r, c, -1)
 
-	for cap(cdef.CdefIdx[r]) < c+1 {
-		cdef.CdefIdx[r] = append(cdef.CdefIdx[r], 0)
+	if Use128x128SuperBlock {
+		cdef.set(r, c+cdefSize4, -1)
+		cdef.set(r+cdefSize4, c, -1)
+		cdef.set(r+cdefSize4, c+cdefSize4, -1)
 	}
+}
 
-	cdef.CdefIdx[r][c] = -1
+func (cdef *Cdef) set(r int, c int, idx int) {
+	for len(cdef.CdefIdx) < r+1 {
+		cdef.CdefIdx = append(cdef.CdefIdx, nil)
+	}
 
-	if Use128x128SuperBlock {
-		cdef.CdefIdx[r][c+cdefSize4] = -1
-		cdef.CdefIdx[r+cdefSize4][c] = -1
-		cdef.CdefIdx[r+cdefSize4][c+cdefSize4] = -1
+	for len(cdef.CdefIdx[r]) < c+1 {
+		cdef.CdefIdx[r] = append(cdef.CdefIdx[r], 0)
 	}
+
+	cdef.CdefIdx[r][c] = idx
 }
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c430767..1ebf611 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -790,7 +790,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
-			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
+			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
 			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
-- 
2.43.0


From 8a88f677bc4621ea787ea42f16ffc0b3b0bde7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 055/161] fix: set both reference frames of intra blocks

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 0a41b8a..4092b71 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -30,7 +30,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 
 	state.ReadDeltas = false
 	state.RefFrame[0] = shared.INTRA_FRAME
-	state.RefFrame[0] = shared.NONE
+	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
 		t.useIntrabc = b.S()
-- 
2.43.0


From ff6ebf94a1c117db63e14a20ed61f1284f92bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 056/161] fix: keep above and left segment prediction contexts
 apart and large enough

---
 internal/tilegroup/inter_frame_mode_info.go | 4 ++--
 internal/tilegroup/tile_group.go            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 26a30c6..d218550 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -120,7 +120,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 						t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 					}
 					for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-						t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+						t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 					}
 					t.readSegmentId(b, uh, state)
 					return
@@ -139,7 +139,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 					t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 				}
 				for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-					t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+					t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 				}
 
 			} else {
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 1ebf611..41bad6b 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -724,7 +724,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveLevelContext = make([][]int, 3)
 	t.AboveDcContext = make([][]int, 3)
-	t.AboveSegPredContext = make([]int, 3)
+	t.AboveSegPredContext = make([]int, state.MiCols+shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128])
 
 	for i := 0; i < 3; i++ {
 		t.AboveLevelContext[i] = make([]int, state.MiCols)
@@ -744,7 +744,7 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftLevelContext = make([][]int, 3)
 	t.LeftDcContext = [3][]int{}
-	t.LeftSegPredContext = make([]int, 3)
+	t.LeftSegPredContext = make([]int, state.MiRows+shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128])
 
 	for i := 0; i < 3; i++ {
 		t.LeftLevelContext[i] = make([]int, state.MiRows)
-- 
2.43.0


From c246920fd59d63fad211cc7d80c19e918eb082fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 057/161] fix: allow chroma from luma for 32 wide or high intra
 frame blocks

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 4092b71..6950fb0 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -60,7 +60,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 			var uvMode int
 			if t.Lossless && t.getPlaneResidualSize(state.MiSize, 1, sh) == shared.BLOCK_4X4 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
-			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) < 32 {
+			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
 			} else {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflNotAllowedCdf[t.YMode], state, b, uh)
-- 
2.43.0


From 21a715617099cadbef35e9c3429fa2073e2656eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 058/161] fix: correct the negative chroma from luma sign

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 41bad6b..b65dd56 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -87,7 +87,7 @@ const UV_CFL_PRED = 13
 const MAX_ANGLE_DELTA = 3
 
 const CFL_SIGN_ZERO = 0
-const CFL_SIGN_NEG = 2
+const CFL_SIGN_NEG = 1
 
 const INTRABC_DELAY_PIXELS = 256
 
-- 
2.43.0


From 0896f02cad58d7cdb8df612a13e9c9b8108c5cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:37 +0000
Subject: [PATCH 059/161] fix: decode the upper block of a horizontal partition

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index ba90c0d..d4775c5 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -53,7 +53,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	if partition == PARTITION_NONE {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ {
-		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
+		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		if hasRows {
 			t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 		}
-- 
2.43.0


From 80cffccf11a65a12ad0ee4675f04088ff39fa0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 060/161] fix: use the split size for the last block of a
 vertical B partition

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index d4775c5..d67e629 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -82,7 +82,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_VERT_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, subSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, splitSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_4 {
 		t.decodeBlock(r+quarterBlock4x4*0, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+quarterBlock4x4*1, c, subSize, b, state, sh, uh)
-- 
2.43.0


From 115611409e01ff7d5c84ddc9257ce6c33f0068fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 061/161] fix: compare columns with the frame width in 4-way
 vertical partitions

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index d67e629..283919f 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -94,7 +94,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 		t.decodeBlock(r, c+quarterBlock4x4*0, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*1, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*2, subSize, b, state, sh, uh)
-		if c+quarterBlock4x4*3 < state.MiRows {
+		if c+quarterBlock4x4*3 < state.MiCols {
 			t.decodeBlock(r, c+quarterBlock4x4*3, subSize, b, state, sh, uh)
 		}
 	}
-- 
2.43.0


From 31c47d52ce5246261a626e77a605e1ef54ac9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 062/161] fix: stay inside the table when deriving split
 probabilities

---
 internal/tilegroup/decode_partition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index 283919f..facbe13 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -132,7 +132,7 @@ func splitOrVertElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
@@ -169,7 +169,7 @@ func splitOrHorzElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
-- 
2.43.0


From bf41ec1bc39a574ff027946be20c961d93721a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 063/161] fix: blocks of a global motion segment are inter
 blocks

---
 internal/tilegroup/inter_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index d218550..9340ffd 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -186,7 +186,7 @@ func (t *TileGroup) readIsInter(b *bitstream.BitStream, state *state.State, uh u
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		t.IsInter = util.Int(state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME] != shared.INTRA_FRAME)
 	} else if t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
-		t.IsInter = 0
+		t.IsInter = 1
 	} else {
 		// S()
 		var ctx int
-- 
2.43.0


From 3448642bec1d0d091fcd1b97bc143300139c3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 064/161] fix: correct the contexts of single references

---
 internal/tilegroup/syntax_element.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index e515381..af45dcb 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -54,9 +54,9 @@ func (t *TileGroup) singleRefP1Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
-	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
-	ctx := refCountCtx(brfCount, arf2Count)
+	brfArf2Count := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state)
+	arfCount := t.countRefs(shared.ALTREF_FRAME, state)
+	ctx := refCountCtx(brfArf2Count, arfCount)
 
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][1], state, b, uh)
 }
@@ -69,14 +69,9 @@ func (t *TileGroup) singleRefP3Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP4Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	fwdCount := t.countRefs(shared.LAST_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST3_FRAME, state)
-	fwdCount += t.countRefs(shared.GOLDEN_FRAME, state)
-	bwdCount := t.countRefs(shared.BWDREF_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF2_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF_FRAME, state)
-	ctx := refCountCtx(fwdCount, bwdCount)
+	lastCount := t.countRefs(shared.LAST_FRAME, state)
+	last2Count := t.countRefs(shared.LAST2_FRAME, state)
+	ctx := refCountCtx(lastCount, last2Count)
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][3], state, b, uh)
 }
 
-- 
2.43.0


From 576c4c96e2bd519232782c2b8b8e1a729cb35306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 065/161] fix: read the inter intra flag for the blocks that
 have it

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 9c49f11..78e3d84 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -467,7 +467,7 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 
 // read_interintra_mode( isCompound )
 func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
-	if util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize > +shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
+	if !util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize >= shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
 		t.InterIntra = b.S()
 
 		if util.Bool(t.InterIntra) {
-- 
2.43.0


From 5ac5d1c2808cbb0adafedd6d6b1078eba60c1356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 066/161] fix: read the transform size of skipped intra blocks,
 not of skipped inter blocks

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index a05e8ec..6ccd385 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -29,7 +29,7 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 			}
 		}
 	} else {
-		t.readTxSize(!util.Bool(t.Skip) || util.Bool(t.IsInter), b, state, uh)
+		t.readTxSize(!util.Bool(t.Skip) || !util.Bool(t.IsInter), b, state, uh)
 		for row := state.MiRow; row < state.MiRow+bh4; row++ {
 			for col := state.MiCol; col < state.MiCol+bw4; col++ {
 				t.InterTxSizes[row][col] = t.TxSize
-- 
2.43.0


From 6a151978b20a08127a5d24e59fd5dadc0293d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 067/161] fix: use the left neighbour for the left transform
 size context

---
 internal/tilegroup/tx_size.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 6ccd385..d0d19b7 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -74,7 +74,7 @@ func (t *TileGroup) txDepthSymbol(maxRectTxSize int, maxTxDepth int, state *stat
 	var leftH int
 	if state.AvailL && util.Bool(t.IsInters[state.MiRow][state.MiCol-1]) {
 		leftH = shared.BLOCK_HEIGHT[state.MiSizes[state.MiRow][state.MiCol-1]]
-	} else if state.AvailU {
+	} else if state.AvailL {
 		leftH = t.getLeftTxHeight(state.MiRow, state.MiCol, state)
 	} else {
 		leftH = 0
@@ -106,7 +106,7 @@ func (t *TileGroup) getAboveTxWidth(row int, col int, state *state.State) int {
 }
 
 func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
-	if row == state.MiCol {
+	if col == state.MiCol {
 		if !state.AvailL {
 			return 64
 		} else if util.Bool(t.Skips[row][col-1]) && util.Bool(t.IsInters[row][col-1]) {
@@ -145,7 +145,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	} else {
 		for i := 0; i < h4; i++ {
 			for j := 0; j < w4; j++ {
-				t.InterTxSizes[row+i][col+i] = txSz
+				t.InterTxSizes[row+i][col+j] = txSz
 			}
 		}
 		t.TxSize = txSz
-- 
2.43.0


From d7b6d1ce9ecbabcc0f1c2477ebdc2c5f9e3ad743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 068/161] fix: place motion vector bits at their positions

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 886240e..1eee2b6 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -122,7 +122,7 @@ func (t *TileGroup) readMvComponent(comp int, b *bitstream.BitStream, uh uncompr
 		d := 0
 		for i := 0; i < mvClass; i++ {
 			mvBit := symbol.ReadSymbol(state.TileMvBitCdf[t.MvCtx][comp][i], state, b, uh)
-			d |= mvBit << 1
+			d |= mvBit << i
 		}
 
 		mag = CLASS0_SIZE << (mvClass + 2)
-- 
2.43.0


From 0d3d7197530b02fd3b78aede5edff70941d286a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 069/161] fix: use the nearest vector for the second reference
 of nearest modes

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 1eee2b6..061e553 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -170,7 +170,7 @@ func (t *TileGroup) getMode(refList int) int {
 		if t.YMode == shared.NEW_NEWMV || t.YMode == shared.NEAREST_NEWMV || t.YMode == shared.NEAR_NEWMV {
 			compMode = shared.NEWMV
 		} else if t.YMode == shared.NEAREST_NEARESTMV || t.YMode == shared.NEW_NEARESTMV {
-			compMode = shared.NEARMV
+			compMode = shared.NEARESTMV
 		} else if t.YMode == shared.NEAR_NEARMV || t.YMode == shared.NEW_NEARMV {
 			compMode = shared.NEARMV
 		} else {
-- 
2.43.0


From c4d10d297df2d899fd15609af26b026117df2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 070/161] fix: fix: keep the vertical default of block copy
 vectors

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 061e553..aff5429 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -39,7 +39,7 @@ func (t *TileGroup) assignMv(isCompound int, b *bitstream.BitStream, state *stat
 					t.PredMv[0][1] = -(sbSize4*MI_SIZE + INTRABC_DELAY_PIXELS) * 8
 				} else {
 					t.PredMv[0][0] = -(sbSize4 * MI_SIZE * 8)
-					t.PredMv[0][0] = 1
+					t.PredMv[0][1] = 0
 				}
 			}
 
-- 
2.43.0


From 76a667e702163ba73cc9ad2dad6d06175857d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 071/161] fix: fix: store the wedge sign in its own field

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 78e3d84..527d31f 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -447,7 +447,7 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 
 		if t.CompoundType == COMPOUND_WEDGE {
 			t.WedgeIndex = b.S()
-			t.WedgeIndex = literal.L(1, state, b, uh)
+			t.WedgeSign = literal.L(1, state, b, uh)
 		} else if t.CompoundType == COMPOUND_DIFFWTD {
 			t.MaskType = literal.L(1, state, b, uh)
 		}
-- 
2.43.0


From c78d26f20c4ecf83eeb9ce021bcc10a2856066cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 072/161] fix: fix: use the second reference for the filter of
 global compound blocks

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 527d31f..68c85eb 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -404,7 +404,7 @@ func (t *TileGroup) needsInterpFilter(state *state.State) bool {
 	} else if large && t.YMode == shared.GLOBALMV {
 		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION
 	} else if large && t.YMode == shared.GLOBAL_GLOBALMV {
-		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[1] == shared.TRANSLATION
+		return state.GmType[state.RefFrame[1]] == shared.TRANSLATION
 	} else {
 		return true
 	}
-- 
2.43.0


From 7bcada44ef6514cb648c0e5038fdd17729fe1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 073/161] fix: fix: read no motion mode for compound blocks and
 blocks without overlap

---
 internal/tilegroup/inter_block_mode_info.go | 30 +++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 68c85eb..2034028 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -251,6 +251,11 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 		}
 	}
 
+	if isCompound || state.RefFrame[1] == shared.INTRA_FRAME || !t.hasOverlappableCandidates(state) {
+		t.MotionMode = SIMPLE
+		return
+	}
+
 	t.findWarpSamples(state)
 	if uh.ForceIntegerMv || t.NumSamples == 0 || !uh.AllowWarpedMotion || t.isScaled(state.RefFrame[0], state, uh) {
 		useObmc := b.S()
@@ -265,6 +270,31 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 	}
 }
 
+// has_overlappable_candidates()
+func (t *TileGroup) hasOverlappableCandidates(state *state.State) bool {
+	if state.AvailU {
+		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
+		for x4 := state.MiCol; x4 < util.Min(state.MiCols, state.MiCol+w4); x4 += 2 {
+			x5 := util.Min(x4|1, state.MiCols-1)
+			if state.RefFrames[state.MiRow-1][x5][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
+	}
+
+	if state.AvailL {
+		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
+		for y4 := state.MiRow; y4 < util.Min(state.MiRows, state.MiRow+h4); y4 += 2 {
+			y5 := util.Min(y4|1, state.MiRows-1)
+			if state.RefFrames[y5][state.MiCol-1][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 // TODO: consider separate file for this procedure
 // find_warp_samples() 7.10.4.
 func (t *TileGroup) findWarpSamples(state *state.State) {
-- 
2.43.0


From 1bbb5693ef2ca387c658e8ba48c90cbbcd450ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 074/161] fix: fix: use the full width for the lower block of a
 horizontal T partition

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index facbe13..d17bae2 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -70,7 +70,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_HORZ_A {
 		t.decodeBlock(r, c, splitSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
-- 
2.43.0


From 1aa04ae118d9f72069ee62a8edf27f02fcb8874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 075/161] fix: fix: give all per-block tables room for a whole
 frame

---
 internal/state/state.go          |  2 +-
 internal/tilegroup/tile_group.go | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 6361ae6..df7cdc7 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -39,7 +39,7 @@ type State struct {
 	MiSize          int
 	MiSizes         [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	DeltaLF         [shared.FRAME_LF_COUNT]int
-	DeltaLFs        [2][2][4]int
+	DeltaLFs        [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][4]int
 	RefLrWiener     [][][]int
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index b65dd56..5c792ac 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -134,21 +134,21 @@ type TileGroup struct {
 	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Lossless            bool
 	Skip                int
-	Skips               [2][2]int
-	SkipModes           [2][2]int
+	Skips               [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SkipModes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	YMode               int
 	YModes              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	UVMode              int
-	UVModes             [2][2]int
+	UVModes             [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	PaletteSizeY        int
 	PaletteSizeUV       int
 	InterpFilter        [2]int
-	InterpFilters       [2][2][2]int
+	InterpFilters       [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	NumMvFound          int
 	NewMvCount          int
 	GlobalMvs           [2][2]int
 	MotionFieldMvs      [][][][2]int
-	IsInters            [2][2]int
+	IsInters            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Mv                  [2][2]int
 	Mvs                 [shared.MAX_TILE_COLS][shared.MAX_TILE_ROWS][2][2]int
 	FoundMatch          int
@@ -168,8 +168,8 @@ type TileGroup struct {
 	PredMv              [2][2]int
 	RefMvIdx            int
 	MvCtx               int
-	PaletteSizes        [2][2][2]int
-	PaletteColors       [][][][]int
+	PaletteSizes        [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	PaletteColors       [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][PALETTE_COLORS]int
 	PaletteCache        []int
 	PaletteColorsY      []int
 	PaletteColorsU      []int
@@ -207,7 +207,7 @@ type TileGroup struct {
 
 	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	TxSize       int
-	TxSizes      [2][2]int
+	TxSizes      [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	AboveLevelContext  [][]int
 	AboveDcContext     [][]int
@@ -215,8 +215,8 @@ type TileGroup struct {
 	LeftDcContext      [3][]int
 	LeftSegPredContext []int
 
-	CompGroupIdxs [][]int
-	CompoundIdxs  [][]int
+	CompGroupIdxs [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	CompoundIdxs  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	CompGroupIdx  int
 	CompoundIdx   int
 
@@ -249,10 +249,10 @@ type TileGroup struct {
 	Dequant           [64][64]int
 	TxType            int
 	PlaneTxType       int
-	TxTypes           [2][2]int
+	TxTypes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	T                 []int
 	Residual          [][]int
-	LoopFilterTxSizes [3][2][2]int
+	LoopFilterTxSizes [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	NewMvContext  int
 	RefMvContext  int
-- 
2.43.0


From 2041185fccf8c05a69864337957016fd5e404848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 076/161] fix: fix: give palettes room for their colours

---
 internal/tilegroup/palette.go    | 4 ++--
 internal/tilegroup/residual.go   | 6 +++---
 internal/tilegroup/tile_group.go | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index e5245ec..5449cff 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -61,7 +61,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-			t.PaletteColorsY = util.Sort(t.PaletteColorsY, 0, t.PaletteSizeY-1)
+			util.Sort(t.PaletteColorsY[:], 0, t.PaletteSizeY-1)
 		}
 	}
 
@@ -101,7 +101,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-			t.PaletteColorsU = util.Sort(t.PaletteColorsU, 0, t.PaletteSizeUV-1)
+			util.Sort(t.PaletteColorsU[:], 0, t.PaletteSizeUV-1)
 
 			deltaEncodePaletteColorsv := literal.L(1, state, b, uh)
 
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 4e93f38..ec6c0e1 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -197,11 +197,11 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 
 	var palette []int
 	if plane == 0 {
-		palette = t.PaletteColorsY
+		palette = t.PaletteColorsY[:]
 	} else if plane == 1 {
-		palette = t.PaletteColorsU
+		palette = t.PaletteColorsU[:]
 	} else {
-		palette = t.PaletteColorsV
+		palette = t.PaletteColorsV[:]
 	}
 
 	// map is a reserved keyword
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 5c792ac..77cff42 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -170,10 +170,10 @@ type TileGroup struct {
 	MvCtx               int
 	PaletteSizes        [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	PaletteColors       [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][PALETTE_COLORS]int
-	PaletteCache        []int
-	PaletteColorsY      []int
-	PaletteColorsU      []int
-	PaletteColorsV      []int
+	PaletteCache        [2 * PALETTE_COLORS]int
+	PaletteColorsY      [PALETTE_COLORS]int
+	PaletteColorsU      [PALETTE_COLORS]int
+	PaletteColorsV      [PALETTE_COLORS]int
 	FilterIntraMode     int
 	SkipMode            int
 	IsInter             int
-- 
2.43.0


From 3bbf8f05acba76ae196d9344b5b4338448147d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 077/161] fix: fix: use the minimum length of luma palette
 deltas

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 5449cff..4e177a1 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -48,7 +48,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 
 			var paletteBits int
 			if idx < t.PaletteSizeY {
-				minBits := sh.ColorConfig.BitDepth - 1
+				minBits := sh.ColorConfig.BitDepth - 3
 				paletteNumExtraBitsY := literal.L(2, state, b, uh)
 				paletteBits = minBits + paletteNumExtraBitsY
 			}
-- 
2.43.0


From ad8ae19814a337a7df26854841204931316fd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 078/161] fix: fix: take chroma colours from the cache into the
 chroma palette

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 4e177a1..90328bd 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -77,7 +77,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				usePaletteColorCacheU := literal.L(1, state, b, uh)
 
 				if util.Bool(usePaletteColorCacheU) {
-					t.PaletteColorsY[idx] = t.PaletteCache[i]
+					t.PaletteColorsU[idx] = t.PaletteCache[i]
 					idx++
 				}
 			}
-- 
2.43.0


From fc39df7d4aac2fa8de6d6131ee2945c9f7212dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:32 +0000
Subject: [PATCH 079/161] fix: fix: allow equal neighbouring colours in the
 chroma palette

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 90328bd..6d97ba5 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -97,7 +97,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 			for idx < t.PaletteSizeUV {
 				paletteDeltaU := literal.L(paletteBits, state, b, uh)
 				t.PaletteColorsU[idx] = util.Clip1(t.PaletteColorsU[idx-1]+paletteDeltaU, sh.ColorConfig.BitDepth)
-				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx] - 1
+				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx]
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-- 
2.43.0


From b7d9d200ac6fbb7d84dcc5741b8955b61cc3ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 080/161] fix: fix: look for palette colours above only inside
 the tile

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 6d97ba5..1c488e7 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -143,7 +143,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 	aboveN := 0
 
-	if util.Bool((state.MiRow * MI_SIZE) % 64) {
+	if util.Bool((state.MiRow*MI_SIZE)%64) && state.AvailU {
 		aboveN = t.PaletteSizes[plane][state.MiRow-1][state.MiCol]
 	}
 
-- 
2.43.0


From 8569cbd71922ea310778a03b60e26e2f70ebf04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 081/161] fix: fix: merge the remaining left colours into the
 palette cache

---
 internal/tilegroup/palette.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 1c488e7..107f973 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -186,5 +186,14 @@ func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 			n++
 		}
 	}
+
+	for leftIdx < leftN {
+		val := t.PaletteColors[plane][state.MiRow][state.MiCol-1][leftIdx]
+		leftIdx++
+		if n == 0 || val != t.PaletteCache[n-1] {
+			t.PaletteCache[n] = val
+			n++
+		}
+	}
 	return n
 }
-- 
2.43.0


From 8ce273950796ed70819c6f5e0ee33c60f441be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 082/161] fix: fix: give the palette colour order room for its
 colours

---
 internal/tilegroup/palette_tokens.go | 2 +-
 internal/tilegroup/tile_group.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 2e0c084..ede897a 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -77,7 +77,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 
 // get_palette_color_context( colorMap, r, c, n )
 func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
-	var scores []int
+	var scores [PALETTE_COLORS]int
 	for i := 0; i < PALETTE_COLORS; i++ {
 		scores[i] = 0
 		t.ColorOrder[i] = i
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 77cff42..7a9f1d9 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -202,7 +202,7 @@ type TileGroup struct {
 
 	ColorMapY        [][]int
 	ColorMapUV       [][]int
-	ColorOrder       []int
+	ColorOrder       [PALETTE_COLORS]int
 	ColorContextHash int
 
 	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-- 
2.43.0


From 348074e67250c4a54904184ce5b529775f62424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 083/161] fix: fix: give colour maps room and predict chroma
 palettes from theirs

---
 internal/tilegroup/palette_tokens.go | 6 +++---
 internal/tilegroup/residual.go       | 4 ++--
 internal/tilegroup/tile_group.go     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index ede897a..da649fe 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -21,7 +21,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
-				t.getPaletteColorContext(t.ColorMapY, (i - j), j, t.PaletteSizeY)
+				t.getPaletteColorContext(&t.ColorMapY, (i - j), j, t.PaletteSizeY)
 				paletteColorIdxY := b.S()
 				t.ColorMapY[i-j][j] = t.ColorOrder[paletteColorIdxY]
 			}
@@ -57,7 +57,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		}
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
-				t.getPaletteColorContext(t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
+				t.getPaletteColorContext(&t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
 				paletteColorIdxUv := b.S()
 				t.ColorMapUV[i-j][j] = t.ColorOrder[paletteColorIdxUv]
 			}
@@ -76,7 +76,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 }
 
 // get_palette_color_context( colorMap, r, c, n )
-func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
+func (t *TileGroup) getPaletteColorContext(colorMap *[64][64]int, r int, c int, n int) {
 	var scores [PALETTE_COLORS]int
 	for i := 0; i < PALETTE_COLORS; i++ {
 		scores[i] = 0
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index ec6c0e1..b66465b 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -205,9 +205,9 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 	}
 
 	// map is a reserved keyword
-	var mapp [][]int
+	mapp := &t.ColorMapUV
 	if plane == 0 {
-		mapp = t.ColorMapY
+		mapp = &t.ColorMapY
 	}
 
 	for i := 0; i < h; i++ {
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 7a9f1d9..3981e26 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -200,8 +200,8 @@ type TileGroup struct {
 
 	MaskType int
 
-	ColorMapY        [][]int
-	ColorMapUV       [][]int
+	ColorMapY        [64][64]int
+	ColorMapUV       [64][64]int
 	ColorOrder       [PALETTE_COLORS]int
 	ColorContextHash int
 
-- 
2.43.0


From 32c68b24dff22ad34c4acf92b7de74383414ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 084/161] fix: fix: subsample the visible height of chroma
 colour maps vertically

---
 internal/tilegroup/palette_tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index da649fe..0241968 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -43,7 +43,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
-		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingX)
+		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		onscreenWidth = onscreenWidth >> util.Int(sh.ColorConfig.SubsamplingX)
 
 		if blockWidth < 4 {
-- 
2.43.0


From 63b150197b91e16068578053b300091576729d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 085/161] fix: fix: read the first colour index with the symbol
 decoder

---
 internal/tilegroup/decode_block.go   | 2 +-
 internal/tilegroup/palette_tokens.go | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 7a120d6..6062117 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -43,7 +43,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	}
 
 	t.modeInfo(b, uh, sh, state)
-	t.paletteTokens(b, state, sh)
+	t.paletteTokens(b, state, sh, uh)
 	t.readBlockTxSize(b, state, uh)
 
 	if util.Bool(state.Skip) {
diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 0241968..8ab46fd 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -2,21 +2,23 @@ package tilegroup
 
 import (
 	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/literal"
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
 // palette_tokens()
-func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
 	blockHeight := shared.BLOCK_HEIGHT[state.MiSize]
 	blockWidth := shared.BLOCK_WIDTH[state.MiSize]
 	onscreenHeight := util.Min(blockHeight, (state.MiRows-state.MiRow)*MI_SIZE)
 	onscreenWidth := util.Min(blockWidth, (state.MiCols-state.MiCol)*MI_SIZE)
 
 	if util.Bool(t.PaletteSizeY) {
-		colorIndexMapY := b.Ns(t.PaletteSizeY)
+		colorIndexMapY := literal.NS(t.PaletteSizeY, state, b, uh)
 		t.ColorMapY[0][0] = colorIndexMapY
 
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
@@ -39,7 +41,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 
 	if util.Bool(t.PaletteSizeUV) {
-		colorIndexMapUv := b.Ns(t.PaletteSizeUV)
+		colorIndexMapUv := literal.NS(t.PaletteSizeUV, state, b, uh)
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From fe47d8f879e5ce87b3cd7e5197e105fd60be7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 086/161] fix: fix: read the chroma palette flag

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 107f973..a1b773a 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -66,7 +66,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 	}
 
 	if t.HasChroma && t.UVMode == DC_PRED {
-		hasPaletteUv := b.S()
+		hasPaletteUv := symbol.ReadSymbol(state.TilePaletteUVModeCdf[util.Int(t.PaletteSizeY > 0)], state, b, uh)
 		if util.Bool(hasPaletteUv) {
 			paletteSizeUvMinus2 := b.S()
 			t.PaletteSizeUV = paletteSizeUvMinus2 + 2
-- 
2.43.0


From 44cf45d9639cff42ce1abc0a10420dfa71aaec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 087/161] fix: fix: read and keep the recursive intra filter
 choice

---
 internal/tilegroup/inter_frame_mode_info.go |  2 +-
 internal/tilegroup/intra_frame_mode_info.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 9340ffd..1b80312 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -99,7 +99,7 @@ func (t *TileGroup) intraBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.paletteModeInfo(b, state, sh, uh)
 	}
 
-	t.filterIntraModeInfo(b, sh, state)
+	t.filterIntraModeInfo(b, sh, state, uh)
 }
 
 // inter_segment_id( preSkip )
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 6950fb0..12c5901 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -81,7 +81,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 		if state.MiSize >= shared.BLOCK_8X8 && shared.BLOCK_WIDTH[state.MiSize] <= 64 && shared.BLOCK_HEIGHT[state.MiSize] <= 64 && util.Bool(uh.AllowScreenContentTools) {
 			t.paletteModeInfo(b, state, sh, uh)
 		}
-		t.filterIntraModeInfo(b, sh, state)
+		t.filterIntraModeInfo(b, sh, state, uh)
 	}
 }
 
@@ -383,13 +383,13 @@ func (t *TileGroup) intraAngleInfoUv(b *bitstream.BitStream, state *state.State,
 }
 
 // filter_intra_mode_info()
-func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State) {
-	useFilterIntra := false
+func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State, uh uncompressedheader.UncompressedHeader) {
+	t.UseFilterIntra = false
 	if sh.EnableFilterIntra && t.YMode == DC_PRED && t.PaletteSizeY == 0 && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
-		useFilterIntra = util.Bool(b.S())
+		t.UseFilterIntra = util.Bool(symbol.ReadSymbol(state.TileFilterIntraCdf[state.MiSize], state, b, uh))
 
-		if useFilterIntra {
-			t.FilterIntraMode = b.S()
+		if t.UseFilterIntra {
+			t.FilterIntraMode = symbol.ReadSymbol(state.TileFilterIntraModeCdf, state, b, uh)
 		}
 	}
 }
-- 
2.43.0


From bd72fb9f6d12291a21f2d08193c0ec939040aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 088/161] fix: fix: read the block copy flag

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 12c5901..0f59b34 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -33,7 +33,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
-		t.useIntrabc = b.S()
+		t.useIntrabc = symbol.ReadSymbol(state.TileIntrabcCdf, state, b, uh)
 	} else {
 		t.useIntrabc = 0
 	}
-- 
2.43.0


From 6cee9d51c2717989efe8fdfc41faab9cde072ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 089/161] fix: fix: read the near vector choice

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 2034028..f70d121 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -44,7 +44,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 			if zeroMv == 0 {
 				t.YMode = shared.GLOBALMV
 			} else {
-				refMv := b.S()
+				refMv := symbol.ReadSymbol(state.TileRefMvCdf[t.RefMvContext], state, b, uh)
 				if refMv == 0 {
 					t.YMode = shared.NEARESTMV
 				} else {
-- 
2.43.0


From ec17e3ac529d2a33c99381a273128163183660f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 090/161] fix: fix: read the choice between the third and
 golden reference

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 internal/tilegroup/syntax_element.go        | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index f70d121..68257f7 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -207,7 +207,7 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 			} else {
 				singleRefP3 := t.singleRefP3Symbol(state, b, uh)
 				if util.Bool(singleRefP3) {
-					singleRefP5 := b.S()
+					singleRefP5 := t.singleRefP5Symbol(state, b, uh)
 					if util.Bool(singleRefP5) {
 						state.RefFrame[0] = shared.GOLDEN_FRAME
 					} else {
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index af45dcb..2a04625 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -75,6 +75,13 @@ func (t *TileGroup) singleRefP4Symbol(state *state.State, b *bitstream.BitStream
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][3], state, b, uh)
 }
 
+func (t *TileGroup) singleRefP5Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	last3Count := t.countRefs(shared.LAST3_FRAME, state)
+	goldCount := t.countRefs(shared.GOLDEN_FRAME, state)
+	ctx := refCountCtx(last3Count, goldCount)
+	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][4], state, b, uh)
+}
+
 func (t *TileGroup) singleRefP6Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
 	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
 	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
-- 
2.43.0


From 425252f30964fb0212e384d856a7f5096be42712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 091/161] fix: fix: read motion modes

---
 internal/tilegroup/inter_block_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 68257f7..5a1a90b 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -258,7 +258,7 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 
 	t.findWarpSamples(state)
 	if uh.ForceIntegerMv || t.NumSamples == 0 || !uh.AllowWarpedMotion || t.isScaled(state.RefFrame[0], state, uh) {
-		useObmc := b.S()
+		useObmc := symbol.ReadSymbol(state.TileUseObmcCdf[state.MiSize], state, b, uh)
 		if util.Bool(useObmc) {
 			t.MotionMode = OBMC
 
@@ -266,7 +266,7 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 			t.MotionMode = SIMPLE
 		}
 	} else {
-		t.MotionMode = b.S()
+		t.MotionMode = symbol.ReadSymbol(state.TileMotionModeCdf[state.MiSize], state, b, uh)
 	}
 }
 
-- 
2.43.0


From 22988eb53e30ebc03524e0e6e3b73114bdb9e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 092/161] fix: fix: read the restoration flag of units of a
 single filter

---
 internal/tilegroup/read_loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index bf28edb..c941023 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -64,13 +64,13 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
 	var restorationType int
 	if uh.FrameRestorationType[plane] == shared.RESTORE_WIENER {
-		useWiener := b.S()
+		useWiener := symbol.ReadSymbol(state.TileUseWienerCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useWiener == 1 {
 			restorationType = shared.RESTORE_WIENER
 		}
 	} else if uh.FrameRestorationType[plane] == shared.RESTORE_SGRPROJ {
-		useSgrproj := b.S()
+		useSgrproj := symbol.ReadSymbol(state.TileUseSgrprojCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useSgrproj == 1 {
 			restorationType = shared.RESTORE_SGRPROJ
-- 
2.43.0


From dec0d2426d8da6f33cbd59b1982404b8c5c3eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 093/161] fix: block copy blocks are inter blocks

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 0f59b34..a5389e1 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -39,7 +39,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 	}
 
 	if util.Bool(t.useIntrabc) {
-		t.IsInter = -1
+		t.IsInter = 1
 		t.YMode = DC_PRED
 		t.UVMode = DC_PRED
 		t.MotionMode = SIMPLE
-- 
2.43.0


From 35c2c980c3274ada049064a07e4ec1949d8be6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 094/161] fix: frames of any size are stored, kept as
 references and output whole

---
 internal/state/frame.go                   | 29 +++++++++
 internal/state/state.go                   | 11 ++--
 internal/tilegroup/decode_frame_wrapup.go | 38 +++---------
 internal/tilegroup/loop_restoration.go    |  2 +-
 internal/tilegroup/output.go              | 72 +++++++++--------------
 internal/tilegroup/predict_inter.go       | 10 ++--
 internal/tilegroup/tile_group.go          | 22 +++++--
 7 files changed, 92 insertions(+), 92 deletions(-)
 create mode 100644 internal/state/frame.go

diff --git a/internal/state/frame.go b/internal/state/frame.go
new file mode 100644
index 0000000..e635088
--- /dev/null
+++ b/internal/state/frame.go
@@ -0,0 +1,29 @@
+package state
+
+// Frame holds the samples of the planes of a frame.
+type Frame [3][][]int
+
+// NewFrame makes a frame of planes of the given size.
+func NewFrame(width int, height int) Frame {
+	var f Frame
+	for plane := range f {
+		f[plane] = make([][]int, height)
+		for y := range f[plane] {
+			f[plane][y] = make([]int, width)
+		}
+	}
+	return f
+}
+
+// Clone makes a frame of the same samples.
+func (f Frame) Clone() Frame {
+	var c Frame
+	for plane := range f {
+		c[plane] = make([][]int, len(f[plane]))
+		for y := range f[plane] {
+			c[plane][y] = make([]int, len(f[plane][y]))
+			copy(c[plane][y], f[plane][y])
+		}
+	}
+	return c
+}
diff --git a/internal/state/state.go b/internal/state/state.go
index df7cdc7..e0d7b9d 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -64,7 +64,7 @@ type State struct {
 	RefBitDepth          [shared.NUM_REF_FRAMES]int
 	RefUpscaledWidth     [8]int
 	SavedOrderHints      [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
-	CurrFrame            [3][16][16]int
+	CurrFrame            Frame
 	SymbolMaxBits        int
 	SymbolValue          int
 	SymbolRange          int
@@ -72,10 +72,11 @@ type State struct {
 	Skip                 int
 	IsInter              int
 	CdefSize4            int
-	CdefFrame            [3][16][16]int
-	UpscaledCurrFrame    [3][9][9]int
-	UpscaledCdefFrame    [3][9][9]int
-	LrFrame              [3][9][9]int
+	CdefFrame            Frame
+	UpscaledCurrFrame    Frame
+	UpscaledCdefFrame    Frame
+	LrFrame              Frame
+	FrameStore           [shared.NUM_REF_FRAMES]Frame
 	MfMvs                [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	SavedMvs             [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	SavedRefFrames       [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 425ff8b..f665457 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -9,8 +9,8 @@ import (
 )
 
 // 7.16 Upscaling process
-func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][9][9]int {
-	var outputFrame [3][9][9]int
+func (t *TileGroup) upscalingProcess(inputFrame state.Frame, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) state.Frame {
+	outputFrame := state.NewFrame(uh.UpscaledWidth, uh.FrameHeight)
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
 		if plane > 0 {
@@ -31,7 +31,7 @@ func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.Sta
 				upscaledPlaneW +
 				(1 << (SUPERRES_EXTRA_BITS - 1)) - err/2
 		initialSubpelX &= SUPERRES_SCALE_MASK
-		miW := state.MiCols >> subX
+		miW := s.MiCols >> subX
 		minX := 0
 		maxX := miW*MI_SIZE - 1
 		for y := 0; y < planeH; y++ {
@@ -124,19 +124,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				state.SavedOrderHints[i][j+shared.LAST_FRAME] = uh.OrderHints[j+shared.LAST_FRAME]
 			}
 
-			for x := 0; x < uh.UpscaledWidth; x++ {
-				for y := 0; y < uh.FrameHeight; y++ {
-					t.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
-				}
-			}
-
-			for plane := 1; plane <= 2; plane++ {
-				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
-					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
-						t.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
-					}
-				}
-			}
+			state.FrameStore[i] = state.LrFrame.Clone()
 
 			for row := 0; row < state.MiRows; row++ {
 				for col := 0; col < state.MiCols; col++ {
@@ -214,8 +202,8 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	state.MiCols = state.RefMiCols[u.FrameToShowMapIdx]
 	state.MiRows = state.RefMiRows[u.FrameToShowMapIdx]
 
-	subsamplingX := state.RefSubsamplingX[u.FrameToShowMapIdx]
-	subsamplingY := state.RefSubsamplingY[u.FrameToShowMapIdx]
+	sh.ColorConfig.SubsamplingX = util.Bool(state.RefSubsamplingX[u.FrameToShowMapIdx])
+	sh.ColorConfig.SubsamplingY = util.Bool(state.RefSubsamplingY[u.FrameToShowMapIdx])
 	sh.ColorConfig.BitDepth = state.RefBitDepth[u.FrameToShowMapIdx]
 	u.OrderHint = state.RefOrderHint[u.FrameToShowMapIdx]
 
@@ -223,19 +211,7 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.OrderHints[j+shared.LAST_FRAME] = state.SavedOrderHints[u.FrameToShowMapIdx][j+shared.LAST_FRAME]
 	}
 
-	for x := 0; x < u.UpscaledWidth; x++ {
-		for y := 0; y < u.FrameHeight; y++ {
-			state.LrFrame[0][y][x] = t.FrameStore[u.FrameToShowMapIdx][0][y][x]
-		}
-	}
-
-	for plane := 1; plane <= 2; plane++ {
-		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
-			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
-				state.LrFrame[plane][y][x] = t.FrameStore[u.FrameToShowMapIdx][plane][y][x]
-			}
-		}
-	}
+	state.LrFrame = state.FrameStore[u.FrameToShowMapIdx].Clone()
 
 	for row := 0; row < state.MiRows; row++ {
 		for col := 0; col < state.MiCols; col++ {
diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index a4d4e0e..64d9784 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -10,7 +10,7 @@ import (
 
 // 7.17. Loop restoration process
 func (t *TileGroup) loopRestoration(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	state.LrFrame = state.UpscaledCdefFrame
+	state.LrFrame = state.UpscaledCdefFrame.Clone()
 
 	if !uh.UsesLr {
 		return
diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 1588c50..e2763b3 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -22,59 +22,43 @@ func (t *TileGroup) outputProcess(state *state.State, uh uncompressedheader.Unco
 
 // 7.18.2. Intermediate output preparation process
 func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.UncompressedHeader, state *state.State, sh *sequenceheader.SequenceHeader) (int, int, int, int) {
-	var w, h, subX, subY int
+	frame := state.LrFrame
+	w := uh.UpscaledWidth
+	h := uh.FrameHeight
+	subX := util.Int(sh.ColorConfig.SubsamplingX)
+	subY := util.Int(sh.ColorConfig.SubsamplingY)
 	if uh.ShowExistingFrame {
-		w := state.RefUpscaledWidth[uh.FrameToShowMapIdx]
-		h := state.RefFrameHeight[uh.FrameToShowMapIdx]
-		subX := state.RefSubsamplingX[uh.FrameToShowMapIdx]
-		subY := state.RefSubsamplingY[uh.FrameToShowMapIdx]
-
-		for x := 0; x < w; x++ {
-			for y := 0; y < h; y++ {
-				t.OutY[y][x] = t.FrameStore[uh.FrameToShowMapIdx][0][y][x]
-			}
-		}
-
-		for x := 0; x < (w+subX)>>subX; x++ {
-			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = t.FrameStore[uh.FrameToShowMapIdx][1][x][y]
-			}
-		}
-
-		for x := 0; x < (w+subX)>>subX; x++ {
-			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = t.FrameStore[uh.FrameToShowMapIdx][2][x][y]
-			}
-		}
+		frame = state.FrameStore[uh.FrameToShowMapIdx]
+		w = state.RefUpscaledWidth[uh.FrameToShowMapIdx]
+		h = state.RefFrameHeight[uh.FrameToShowMapIdx]
+		subX = state.RefSubsamplingX[uh.FrameToShowMapIdx]
+		subY = state.RefSubsamplingY[uh.FrameToShowMapIdx]
 
 		// TODO: does this assignment work? sequenceheader isn't supposed to get modified this way
 		sh.ColorConfig.BitDepth = state.RefBitDepth[uh.FrameToShowMapIdx]
-	} else {
-		w := uh.UpscaledWidth
-		h := uh.FrameHeight
-		subX := util.Int(sh.ColorConfig.SubsamplingX)
-		subY := util.Int(sh.ColorConfig.SubsamplingY)
+	}
 
-		for x := 0; x < w; x++ {
-			for y := 0; y < h; y++ {
-				t.OutY[y][x] = state.LrFrame[0][y][x]
-			}
-		}
+	t.OutY = cropPlane(frame[0], w, h)
+	t.OutU = nil
+	t.OutV = nil
+	if sh.ColorConfig.NumPlanes > 1 {
+		t.OutU = cropPlane(frame[1], (w+subX)>>subX, (h+subY)>>subY)
+		t.OutV = cropPlane(frame[2], (w+subX)>>subX, (h+subY)>>subY)
+	}
 
-		for x := 0; x < (w+subX)>>subX; x++ {
-			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = state.LrFrame[1][y][x]
-			}
-		}
+	return w, h, subX, subY
+}
 
-		for x := 0; x < (w+subX)>>subX; x++ {
-			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = state.LrFrame[2][y][x]
-			}
+// cropPlane copies the top left of a plane.
+func cropPlane(plane [][]int, w int, h int) [][]int {
+	out := make([][]int, h)
+	for y := range out {
+		out[y] = make([]int, w)
+		for x := range out[y] {
+			out[y][x] = plane[y][x]
 		}
 	}
-
-	return w, h, subX, subY
+	return out
 }
 
 // 7.18.3. Film grain syntehsis
diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index d2f9a89..2a7ba2a 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -251,11 +251,9 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var ref [3][16][16]int
-	if refIdx == -1 {
-		ref = state.CurrFrame
-	} else {
-		ref = t.FrameStore[refIdx]
+	ref := state.CurrFrame
+	if refIdx != -1 {
+		ref = state.FrameStore[refIdx]
 	}
 
 	subX := 0
@@ -320,7 +318,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	var pred [PRED_SIZE][PRED_SIZE]int
 
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
-	ref := t.FrameStore[refIdx]
+	ref := state.FrameStore[refIdx]
 
 	subX := 0
 	subY := 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 3981e26..e4c4f69 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -233,8 +233,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	FrameStore [shared.NUM_REF_FRAMES][3][16][16]int
-	Mask       [][]int
+	Mask [][]int
 
 	FwdWeight int
 	BckWeight int
@@ -263,9 +262,9 @@ type TileGroup struct {
 	PlaneEndX    int
 	PlaneEndY    int
 
-	OutY [1][1]int
-	OutU [1][1]int
-	OutV [1][1]int
+	OutY [][]int
+	OutU [][]int
+	OutV [][]int
 }
 
 func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
@@ -301,6 +300,10 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 	headerBytes := (endBitBos - startbitPos) / 8
 	sz -= headerBytes
 
+	if tgStart == 0 {
+		allocateFrames(state)
+	}
+
 	for state.TileNum = tgStart; state.TileNum <= tgEnd; state.TileNum++ {
 		tileRow := state.TileNum / state.TileCols
 		tileCol := state.TileNum % state.TileCols
@@ -334,6 +337,15 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 	}
 }
 
+// allocateFrames makes room for the samples of the frame and of the blocks
+// that reach over its edges.
+func allocateFrames(s *state.State) {
+	width := (s.MiCols*MI_SIZE + 127) &^ 127
+	height := (s.MiRows*MI_SIZE + 127) &^ 127
+	s.CurrFrame = state.NewFrame(width, height)
+	s.CdefFrame = state.NewFrame(width, height)
+}
+
 // 7.4. Decode frame wrapup process
 // decode_frame_wrapup( )
 func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-- 
2.43.0


From 3551f29b336fa5f56a37f78196622708d6629988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 095/161] fix: transforms have room for their samples

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index e4c4f69..dd0fae0 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -249,8 +249,8 @@ type TileGroup struct {
 	TxType            int
 	PlaneTxType       int
 	TxTypes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	T                 []int
-	Residual          [][]int
+	T                 [64]int
+	Residual          [64][64]int
 	LoopFilterTxSizes [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	NewMvContext  int
-- 
2.43.0


From a437ea03b7f5dcc37d8759b6ed08e02a3ddbdae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 096/161] fix: the second output of a butterfly rotation is a
 sum

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3b7452f..afcacf4 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -113,7 +113,7 @@ func (t *TileGroup) b(a int, b int, angle int, flag int, r int) {
 		return
 	}
 	x := t.T[a]*util.Cos128(angle) - t.T[b]*util.Sin128(angle)
-	y := t.T[a]*util.Sin128(angle) - t.T[b]*util.Cos128(angle)
+	y := t.T[a]*util.Sin128(angle) + t.T[b]*util.Cos128(angle)
 	t.T[a] = util.Round2(x, 12)
 	t.T[b] = util.Round2(y, 12)
 }
-- 
2.43.0


From 4602887b20270b955c95eb71afdec238abeaa174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 097/161] fix: the 4 point sine transform has room for its sums

---
 internal/tilegroup/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index afcacf4..3d0942f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -382,8 +382,8 @@ const SINPI_4_9 = 3803
 // 7.13.2.6 Inverse ADST4 process
 func (t *TileGroup) inverseADST4(r int) {
 	// TODO: bistream conformance precision ???
-	s := []int{}
-	x := []int{}
+	var s [7]int
+	var x [4]int
 
 	s[0] = SINPI_1_9 * t.T[0]
 	s[1] = SINPI_2_9 * t.T[0]
-- 
2.43.0


From b230b51b4ba07b67ae084ce8c781c7243d9207a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 098/161] fix: the 8 point sine transform orders its outputs as
 one of 8 points

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3d0942f..9a6c46e 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -436,7 +436,7 @@ func (t *TileGroup) inverseADST8(r int) {
 		t.b(2+4*i, 3+4*i, 32, 1, r)
 	}
 
-	t.inverseADSTOutputArrayPermutation(4)
+	t.inverseADSTOutputArrayPermutation(3)
 }
 
 // 7.13.2.8 Inverse ADST16 process
-- 
2.43.0


From b0024d9d5081876174d7e68ad088d75d042fa015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 099/161] fix: column transforms start from the row results

---
 internal/tilegroup/transform.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 9a6c46e..3d77ce3 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -78,6 +78,9 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 	}
 
 	for j := 0; j < w; j++ {
+		for i := 0; i < h; i++ {
+			t.T[i] = t.Residual[i][j]
+		}
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(0)
 		} else if t.PlaneTxType == DCT_DCT ||
-- 
2.43.0


From ecc9548c5d91b9f5466e385d2f44ffef2fa1648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 100/161] fix: AC coefficients use the AC quantizers

---
 internal/tilegroup/reconstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index b50e99e..237cf44 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -127,7 +127,7 @@ func (t *TileGroup) getAcQuant(plane int, sh sequenceheader.SequenceHeader, uh u
 }
 
 func acQ(b int, sh sequenceheader.SequenceHeader) int {
-	return Dc_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
+	return Ac_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
 }
 
 var Dc_Qlookup = [][]int{
-- 
2.43.0


From fb6a96dbe0df4d5a8777a5995ba976b3760af9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 101/161] fix: column transforms store each value in its row

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3d77ce3..414ad9c 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -102,7 +102,7 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		}
 
 		for i := 0; i < h; i++ {
-			t.Residual[i][j] = util.Round2(t.T[j], colShift)
+			t.Residual[i][j] = util.Round2(t.T[i], colShift)
 		}
 	}
 }
-- 
2.43.0


From 06e297299376f09e17a12ec0e341be876069191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:51 +0000
Subject: [PATCH 102/161] fix: intra predictions have room for blocks of 64x64

---
 internal/tilegroup/predict_intra.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b026a4c..3f4abe9 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -86,7 +86,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 
 	t.LeftCol[len(t.LeftCol)-1] = t.AboveRow[len(t.AboveRow)-1]
 
-	var pred [15][15]int
+	var pred [64][64]int
 	if plane == 0 && t.UseFilterIntra {
 		pred = t.recursiveIntraPredictionProcess(w, h, sh)
 	} else if t.isDirectionalMode(mode) {
@@ -107,8 +107,8 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 }
 
 // 7.11.2.2 Basic intra prediction process
-func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [64][64]int {
+	var pred [64][64]int
 
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
@@ -131,10 +131,10 @@ func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
 }
 
 // 7.11.2.3. Recursive intra prediction process
-func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
+func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
 	w4 := w >> 2
 	h2 := h >> 1
-	var pred [15][15]int
+	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
 			var p []int
@@ -175,8 +175,8 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 }
 
 // 7.11.2.4. Directional intra prediction process
-func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 
 	angleDelta := t.AngleDeltaUV
 	if plane == 0 {
@@ -325,8 +325,8 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 }
 
 // 7.11.2.5 DC intra prediction process
-func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 	if haveLeft && haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
@@ -367,8 +367,8 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 }
 
 // 7.11.2.6 Smooth intra prediction process
-func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [64][64]int {
+	var pred [64][64]int
 	if mode == SMOOTH_PRED {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From 03b756e4464ad6ba920582f0e76708f6f35ffb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:53 +0000
Subject: [PATCH 103/161] fix: the left edge goes to the left column

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 3f4abe9..e93e78d 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -48,7 +48,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
 			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
+			t.LeftCol[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
 
 		} else {
 			leftLimit := util.Min(maxY, y+h-1)
@@ -57,9 +57,9 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 			}
 
 			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
 			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
 			}
 		}
 	}
-- 
2.43.0


From 255dbdba2c5790a3f979bee0d2796d5bc2a0ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:55 +0000
Subject: [PATCH 104/161] fix: the edges have w+h samples

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e93e78d..e495466 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -25,7 +25,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		maxY = ((state.MiRows * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingY)) - 1
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 1 {
 			if x-1 == -1 {
 				t.AboveRow[i] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
@@ -44,7 +44,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		}
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
 			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-- 
2.43.0


From f64876c829f0440b50e13af5b340eb06b52ca446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:56 +0000
Subject: [PATCH 105/161] fix: DC prediction from the row above only

---
 internal/tilegroup/predict_intra.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e495466..fbb581b 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -354,6 +354,18 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 			}
 		}
 
+	} else if !haveLeft && haveAbove {
+		for i := 0; i < h; i++ {
+			for j := 0; j < w; j++ {
+				sum := 0
+				for k := 0; k < w; k++ {
+					sum += t.AboveRow[k]
+				}
+				aboveAvg := util.Clip1((sum+(w>>1))>>log2W, sh.ColorConfig.BitDepth)
+				pred[i][j] = aboveAvg
+			}
+		}
+
 	} else if !haveLeft && !haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From af116be5703f496785792485ea07d239b60c52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 106/161] fix: recursive prediction has room for its inputs and
 starts at the corner

---
 internal/tilegroup/predict_intra.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index fbb581b..3b9e6eb 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -130,6 +130,15 @@ func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [64][64]int {
 	return pred
 }
 
+// edge is the position of sample i of AboveRow and LeftCol; negative samples
+// are at the end.
+func edge(i int) int {
+	if i < 0 {
+		return 32768 + i
+	}
+	return i
+}
+
 // 7.11.2.3. Recursive intra prediction process
 func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
 	w4 := w >> 2
@@ -137,11 +146,11 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
-			var p []int
+			var p [7]int
 			for i := 0; i <= 6; i++ {
 				if i < 5 {
 					if i2 == 0 {
-						p[i] = t.AboveRow[(j4<<2)+i-1]
+						p[i] = t.AboveRow[edge((j4<<2)+i-1)]
 					} else if j4 == 0 && i == 0 {
 						p[i] = t.LeftCol[(i2<<1)-1]
 					} else {
-- 
2.43.0


From 592e01e39411e477ddb29b9316cd45ff1980b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 107/161] fix: the filter type depends on both neighbours

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 3b9e6eb..1a95843 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -520,7 +520,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 				r++
 			}
 		}
-		aboveSmooth = t.isSmooth(r, c, plane, state)
+		leftSmooth = t.isSmooth(r, c, plane, state)
 	}
 
 	return aboveSmooth || leftSmooth
-- 
2.43.0


From 10f977af8930f46ac91d0efede964694c33b2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 108/161] fix: chroma neighbours of the filter type are the
 last of their area

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 1a95843..9d02239 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -493,7 +493,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 		c := state.MiCol
 
 		if plane > 0 {
-			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
+			if sh.ColorConfig.SubsamplingX && !util.Bool(state.MiCol&1) {
 				c++
 			}
 			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
@@ -516,7 +516,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
 				c--
 			}
-			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
+			if sh.ColorConfig.SubsamplingY && !util.Bool(state.MiRow&1) {
 				r++
 			}
 		}
-- 
2.43.0


From 123dbcacaeb3df86d87a0840f174ef6079c6f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 109/161] fix: edge filter strengths of all block sizes

---
 internal/tilegroup/predict_intra.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 9d02239..80fbff2 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -542,6 +542,10 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 				strength = 1
 			}
 		} else if blkWh <= 16 {
+			if d >= 40 {
+				strength = 1
+			}
+		} else if blkWh <= 24 {
 			if d >= 8 {
 				strength = 1
 			}
@@ -556,9 +560,11 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 			if d >= 4 {
 				strength = 2
 			}
-			if d >= 4 {
+			if d >= 32 {
 				strength = 3
 			}
+		} else {
+			strength = 3
 		}
 	} else {
 		if blkWh <= 8 {
-- 
2.43.0


From 43e86aedce20bb680b15db337f835b2c1326a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 110/161] fix: edge upsampling has room and reaches the corner

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 80fbff2..1df09a7 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -619,10 +619,10 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 		buf = &t.LeftCol
 	}
 
-	var dup []int
+	var dup [256]int
 	dup[0] = buf[len(buf)-1]
 	for i := -1; i < numPx; i++ {
-		dup[i+2] = buf[i]
+		dup[i+2] = buf[edge(i)]
 	}
 	dup[numPx+2] = buf[numPx-1]
 
@@ -630,7 +630,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 	for i := 0; i < numPx; i++ {
 		s := -dup[i] + (9 * dup[i+1]) + (9 * dup[i+2]) - dup[i+3]
 		s = util.Clip1(util.Round2(s, 4), sh.ColorConfig.BitDepth)
-		buf[2*i-1] = s
+		buf[edge(2*i-1)] = s
 		buf[2*i] = dup[i+2]
 	}
 }
-- 
2.43.0


From 96602e9154f98eecf9419f41010a5c7f092f9fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 111/161] fix: edge filtering has room, keeps the corner and
 uses all samples

---
 internal/tilegroup/predict_intra.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 1df09a7..2b72550 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -641,26 +641,26 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 		return
 	}
 
-	var edge []int
+	var samples [256]int
 	for i := 0; i < sz; i++ {
 		if util.Bool(left) {
-			edge[i] = t.LeftCol[i-1]
+			samples[i] = t.LeftCol[edge(i-1)]
 		} else {
-			edge[i] = t.AboveRow[i-1]
+			samples[i] = t.AboveRow[edge(i-1)]
 		}
 	}
 
-	for i := 0; i < sz; i++ {
+	for i := 1; i < sz; i++ {
 		s := 0
 		for j := 0; j < INTRA_EDGE_TAPS; j++ {
-			k := util.Clip3(0, sz-12, i-2+j)
-			s += Intra_Edge_Kernel[strength-1][j] * edge[k]
-			if left == 1 {
-				t.LeftCol[i-1] = (s + 8) >> 4
-			}
-			if left == 0 {
-				t.AboveRow[i-1] = (s + 8) >> 4
-			}
+			k := util.Clip3(0, sz-1, i-2+j)
+			s += Intra_Edge_Kernel[strength-1][j] * samples[k]
+		}
+		if left == 1 {
+			t.LeftCol[i-1] = (s + 8) >> 4
+		}
+		if left == 0 {
+			t.AboveRow[i-1] = (s + 8) >> 4
 		}
 	}
 }
-- 
2.43.0


From b7a14295033323d1e5d18f9ff50409137b839e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 112/161] fix: the filtered edge includes the corner

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 2b72550..f9ac399 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -211,7 +211,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle < 90 {
 					sumPart = h
 				}
-				numPx := util.Min(w, (maxX-x+1)) + sumPart
+				numPx := util.Min(w, (maxX-x+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 0)
 			}
 
@@ -221,7 +221,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle > 180 {
 					sumPart = w
 				}
-				numPx := util.Min(h, (maxY-y+1)) + sumPart
+				numPx := util.Min(h, (maxY-y+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 1)
 			}
 		}
-- 
2.43.0


From 33eb46c00eb9d7dac0858906c20fe293f212053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:09 +0000
Subject: [PATCH 113/161] fix: step of directions right of vertical

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index f9ac399..95291bc 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -269,7 +269,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	if pAngle < 90 {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				idx := (i + i) * dx
+				idx := (i + 1) * dx
 				base := (idx >> (6 - util.Int(upsampleAbove))) + (j << util.Int(upsampleAbove))
 				shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
 				maxBaseX := (w + h - 1) << util.Int(upsampleAbove)
-- 
2.43.0


From 1ac0b209fd8911ac0c61adc084b4f1f339d3f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:11 +0000
Subject: [PATCH 114/161] fix: step of directions below horizontal

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 95291bc..3ed8405 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -310,7 +310,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
 				idx := (j + 1) * dy
-				base := (idx >> (6 >> util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
+				base := (idx >> (6 - util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
 				shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 				pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
 			}
-- 
2.43.0


From f0d4dc6cccf0f88fe3c4965b471e25da06ba6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:13 +0000
Subject: [PATCH 115/161] fix: horizontal prediction repeats the left column

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 3ed8405..7576b3d 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -325,7 +325,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	} else if pAngle == 180 {
 		for j := 0; j < w; j++ {
 			for i := 0; i < h; i++ {
-				pred[i][j] = t.LeftCol[j]
+				pred[i][j] = t.LeftCol[i]
 			}
 		}
 	}
-- 
2.43.0


From b73990068995e4015740cff119a3124e5a776f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 116/161] fix: directional prediction uses the samples before
 the edges

---
 internal/tilegroup/predict_intra.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 7576b3d..9debdce 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -290,18 +290,13 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 
 				if base >= -(1 << util.Int(upsampleAbove)) {
 					shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
-					pred[i][j] = util.Round2(t.AboveRow[base]*(32-shift)+t.AboveRow[base+1]*shift, 5)
+					pred[i][j] = util.Round2(t.AboveRow[edge(base)]*(32-shift)+t.AboveRow[edge(base+1)]*shift, 5)
 				} else {
 					idx = (i << 6) - (j+1)*dy
 					base = idx >> (6 - util.Int(upsampleLeft))
 					shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 
-					// handle negative indezes
-					if base < 0 {
-						pred[i][j] = util.Round2(t.LeftCol[len(t.LeftCol)+base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					} else {
-						pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					}
+					pred[i][j] = util.Round2(t.LeftCol[edge(base)]*(32-shift)+t.LeftCol[edge(base+1)]*shift, 5)
 				}
 			}
 		}
-- 
2.43.0


From f2977fb40982737cdd4cdcd1a63307f57d168dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:16 +0000
Subject: [PATCH 117/161] fix: each chroma plane has its own scaling from luma

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index b66465b..41af60d 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -224,7 +224,7 @@ func (t *TileGroup) predictChromaFromLuma(plane int, startX int, startY int, txS
 	subX := util.Int(sh.ColorConfig.SubsamplingX)
 	subY := util.Int(sh.ColorConfig.SubsamplingY)
 	var alpha int
-	if plane == 0 {
+	if plane == 1 {
 		alpha = t.CflAlphaU
 	} else {
 		alpha = t.CflAlphaV
-- 
2.43.0


From d4a00f4f7822b3bf38175b4bfbc0792a13b53ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:17 +0000
Subject: [PATCH 118/161] fix: the row above a block is the one before it

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 9debdce..26b4279 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -15,7 +15,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 	maxX := (state.MiCols * MI_SIZE) - 1
 	maxY := (state.MiRows * MI_SIZE) - 1
 
-	yMinusOne := y
+	yMinusOne := y - 1
 	if y-1 == -1 {
 		yMinusOne = len(state.CurrFrame[plane]) - 1
 	}
-- 
2.43.0


From 504c248c7e6c0d721aa9d24054fc25071927396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 119/161] fix: blocks over 64 samples are coded in chunks

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 41af60d..0c99fa2 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -11,8 +11,8 @@ import (
 
 // residual( )
 func (t *TileGroup) residual(sh sequenceheader.SequenceHeader, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
-	widthChunks := util.Max(1, state.BlockWidth[state.MiSize]>>6)
-	heightChunks := util.Max(1, state.BlockHeight[state.MiSize]>>6)
+	widthChunks := util.Max(1, shared.BLOCK_WIDTH[state.MiSize]>>6)
+	heightChunks := util.Max(1, shared.BLOCK_HEIGHT[state.MiSize]>>6)
 
 	miSizeChunk := state.MiSize
 	if widthChunks > 1 || heightChunks > 1 {
-- 
2.43.0


From ef6af81852c8598bf8ab8384b33edfbc3535e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 120/161] fix: position of a transform block in its superblock

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 0c99fa2..b3b5c56 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -94,11 +94,11 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	row := (startY << subY) >> shared.MI_SIZE_LOG2
-	col := (startY << subY) >> shared.MI_SIZE_LOG2
+	col := (startX << subX) >> shared.MI_SIZE_LOG2
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-		sbMask = 21
+		sbMask = 31
 	}
 
 	subBlockMiRow := row & sbMask
-- 
2.43.0


From 00d11967362e8c9a239b3b42e3031a72da5fe470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 121/161] fix: luma and chroma blocks use the availability of
 their plane

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index b3b5c56..2578177 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -132,7 +132,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 			conditionL := state.AvailL
 			conditionU := state.AvailU
-			if plane == 0 {
+			if plane > 0 {
 				conditionL = state.AvailLChroma
 				conditionU = state.AvailUChroma
 			}
-- 
2.43.0


From f720db5439b80f11d74fd1d1913ea09f8f8b845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:24 +0000
Subject: [PATCH 122/161] fix: the size of a transform is recorded for its
 whole width

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 2578177..fe5fba0 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -183,8 +183,8 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	for i := 0; i < stepY; i++ {
-		for j := 0; j < stepY; j++ {
-			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
+		for j := 0; j < stepX; j++ {
+			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX)+j] = txSz
 			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
 		}
 	}
-- 
2.43.0


From 0cb5b82e1ea8fae77bbd57de36af76641712026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 123/161] fix: the flags of decoded blocks cover a superblock
 and its left and upper neighbours

---
 internal/state/state.go                  |  2 +-
 internal/tilegroup/compute_prediction.go |  2 +-
 internal/tilegroup/residual.go           | 19 +++++--------------
 internal/tilegroup/tile_group.go         | 17 ++++-------------
 4 files changed, 11 insertions(+), 29 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index e0d7b9d..1acc7a9 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -44,7 +44,7 @@ type State struct {
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded         [3][13][13]bool
+	BlockDecoded         [3][35][35]bool // from row and column -1
 	FrameRestorationType []int
 	LoopRestorationSize  [3]int
 	AvailU               bool
diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 136bcbb..4d612d7 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -54,7 +54,7 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				haveLeft = state.AvailL
 				haveAbove = state.AvailU
 			}
-			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][(subBlockMiRow>>subY)-1][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][(subBlockMiCol>>subX)-1], mode, log2W, log2H, state, sh)
+			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][subBlockMiRow>>subY][(subBlockMiCol>>subX)+num4x4W+1], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H+1][subBlockMiCol>>subX], mode, log2W, log2H, state, sh)
 		}
 
 		if util.Bool(t.IsInter) {
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index fe5fba0..799bff2 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -137,19 +137,10 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 				conditionU = state.AvailUChroma
 			}
 
-			// this assumes negative indeces are intended
-			x1 := (subBlockMiCol >> subX) + stepX
-			x2 := (subBlockMiCol >> subX) - 1
-			y1 := (subBlockMiRow >> subY) + stepY
-			y2 := (subBlockMiRow >> subY) - 1
-
-			if x2 < 0 {
-				x2 = len(state.BlockDecoded[plane][y1]) + x2
-			}
-
-			if y2 < 0 {
-				y2 = len(state.BlockDecoded[plane]) + y2
-			}
+			x1 := (subBlockMiCol >> subX) + stepX + 1
+			x2 := subBlockMiCol >> subX
+			y1 := (subBlockMiRow >> subY) + stepY + 1
+			y2 := subBlockMiRow >> subY
 
 			t.predictIntra(
 				plane,
@@ -185,7 +176,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	for i := 0; i < stepY; i++ {
 		for j := 0; j < stepX; j++ {
 			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX)+j] = txSz
-			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
+			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i+1][(subBlockMiCol>>subX)+j+1] = true
 		}
 	}
 }
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index dd0fae0..5ea7158 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -829,25 +829,16 @@ func (t *TileGroup) clearBlockDecodedFlags(r int, c int, sbSize4 int, state *sta
 
 		for y := -1; y <= (sbSize4 >> subY); y++ {
 			for x := -1; x <= (sbSize4 >> subX); x++ {
-				if y < 0 {
-					y = len(state.BlockDecoded[plane]) + y
-				}
-
-				if x < 0 {
-					x = len(state.BlockDecoded[plane][y]) + x
-				}
-
 				if y < 0 && x < sbWidth4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][y+1][x+1] = true
 				} else if x < 0 && y < sbHeight4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][y+1][x+1] = true
 				} else {
-					state.BlockDecoded[plane][y][x] = false
+					state.BlockDecoded[plane][y+1][x+1] = false
 				}
 			}
 		}
-		lastElement := len(state.BlockDecoded[plane][sbSize4>>subY]) - 1
-		state.BlockDecoded[plane][sbSize4>>subY][lastElement] = false
+		state.BlockDecoded[plane][(sbSize4>>subY)+1][0] = false
 	}
 
 }
-- 
2.43.0


From 1650a17c34fb7f84663950bd8642b6a0b39fe25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 124/161] fix: the flags of decoded blocks are cleared for the
 whole superblock

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 5ea7158..35d3762 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -803,7 +803,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
 			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
-			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
+			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
 		}
-- 
2.43.0


From 59aef83ccf875511a8fbfa1d8328616d83ea2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 125/161] fix: the number of coefficients of a transform block
 is returned

---
 internal/tilegroup/coeffs.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 8c9d7ad..6603d43 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -87,7 +87,6 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 			eobPt = eob_pt_1024 + 1
 		}
 
-		var eob int
 		if eobPt < 2 {
 			eob = eobPt
 		} else {
-- 
2.43.0


From 79167d49a3ba4e3cbc8b30edc17397304ad76ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 126/161] fix: the sign of a coefficient is one bit

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 6603d43..a4da794 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -143,7 +143,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					dcSign := t.readDcSignSymbol(plane, w4, h4, x4, y4, ptype, state, b, uh, sh)
 					sign = dcSign
 				} else {
-					signBit := literal.L(0, state, b, uh)
+					signBit := literal.L(1, state, b, uh)
 					sign = signBit
 				}
 			} else {
-- 
2.43.0


From ad5b24222de88f63419b7968d20dd8645bfb14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:53 +0000
Subject: [PATCH 127/161] fix: coefficients have 20 bits

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index a4da794..490cd95 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -175,7 +175,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 				}
 			}
 
-			t.Quant[pos] = t.Quant[pos] & 0xFFFF
+			t.Quant[pos] = t.Quant[pos] & 0xFFFFF
 			culLevel += t.Quant[pos]
 			if util.Bool(sign) {
 				t.Quant[pos] = -t.Quant[pos]
-- 
2.43.0


From 29af9790e7434f5176066ad77726143f0b944f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:55 +0000
Subject: [PATCH 128/161] fix: the scan of 64x16 blocks is that of 32x16

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 490cd95..123bf75 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -500,7 +500,7 @@ func (t *TileGroup) getScan(txSz int) []int {
 	}
 
 	if txSz == TX_64X16 {
-		return Default_Scan_16x32
+		return Default_Scan_32x16
 	}
 
 	if TX_SIZE_SQR_UP[txSz] == TX_64X64 {
-- 
2.43.0


From 2e06b45607cb73942c16747368cca5b56a041960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:24 +0000
Subject: [PATCH 129/161] fix: skipped blocks clear the contexts of all their
 units

---
 internal/tilegroup/decode_block.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 6062117..30e3a83 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -46,7 +46,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	t.paletteTokens(b, state, sh, uh)
 	t.readBlockTxSize(b, state, uh)
 
-	if util.Bool(state.Skip) {
+	if util.Bool(t.Skip) {
 		t.resetBlockContext(bw4, bh4, b, state, sh)
 	}
 
@@ -124,12 +124,12 @@ func (t *TileGroup) resetBlockContext(bw4 int, bh4 int, b *bitstream.BitStream,
 			subY = util.Int(sh.ColorConfig.SubsamplingY)
 		}
 
-		for i := state.MiCol >> subX; i < ((state.MiCol + bw4) >> subX); i++ {
+		for i := state.MiCol >> subX; i <= ((state.MiCol + bw4 - 1) >> subX); i++ {
 			t.AboveLevelContext[plane][i] = 0
 			t.AboveDcContext[plane][i] = 0
 		}
 
-		for i := state.MiRow >> subY; i < ((state.MiRow + bh4) >> subY); i++ {
+		for i := state.MiRow >> subY; i <= ((state.MiRow + bh4 - 1) >> subY); i++ {
 			t.LeftLevelContext[plane][i] = 0
 			t.LeftDcContext[plane][i] = 0
 		}
-- 
2.43.0


From d41bdb0b0d58d07ab2c0d8320fc514880accc077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:26 +0000
Subject: [PATCH 130/161] fix: motion of inter blocks is stored

---
 internal/tilegroup/decode_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 30e3a83..fc30970 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -64,7 +64,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 				state.RefFrames[r+y][c+x][refList] = state.RefFrame[refList]
 			}
 
-			if util.Bool(state.IsInter) {
+			if util.Bool(t.IsInter) {
 				if !util.Bool(t.useIntrabc) {
 					t.CompGroupIdxs[r+y][c+x] = t.CompGroupIdx
 					t.CompoundIdxs[r+y][c+x] = t.CompoundIdx
-- 
2.43.0


From 9cc81121df15e50c395414bbf2e84a6bfbbcb8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:28 +0000
Subject: [PATCH 131/161] fix: segments of blocks are stored

---
 internal/tilegroup/decode_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index fc30970..09baa4e 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -89,6 +89,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 			t.Skips[r+y][c+x] = t.Skip
 			t.TxSizes[r+y][c+x] = t.TxSize
 			state.MiSizes[r+y][c+x] = state.MiSize
+			t.SegmentIds[r+y][c+x] = t.SegmentId
 			t.PaletteSizes[0][r+y][c+x] = t.PaletteSizeY
 			t.PaletteSizes[1][r+y][c+x] = t.PaletteSizeUV
 
-- 
2.43.0


From 8af6c79d9e709b8aabe0ad4d9f121880be82a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:30 +0000
Subject: [PATCH 132/161] fix: contexts reach to the end of blocks that cross
 the frame edge

---
 internal/tilegroup/tile_group.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 35d3762..ad93c5e 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -739,8 +739,8 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveSegPredContext = make([]int, state.MiCols+shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128])
 
 	for i := 0; i < 3; i++ {
-		t.AboveLevelContext[i] = make([]int, state.MiCols)
-		t.AboveDcContext[i] = make([]int, state.MiCols)
+		t.AboveLevelContext[i] = make([]int, state.MiCols+shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128])
+		t.AboveDcContext[i] = make([]int, state.MiCols+shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128])
 	}
 
 	for i := 0; i < state.MiCols; i++ {
@@ -759,8 +759,8 @@ func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftSegPredContext = make([]int, state.MiRows+shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128])
 
 	for i := 0; i < 3; i++ {
-		t.LeftLevelContext[i] = make([]int, state.MiRows)
-		t.LeftDcContext[i] = make([]int, state.MiRows)
+		t.LeftLevelContext[i] = make([]int, state.MiRows+shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128])
+		t.LeftDcContext[i] = make([]int, state.MiRows+shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128])
 	}
 
 	for i := 0; i < state.MiRows; i++ {
-- 
2.43.0


From 52830664b37ac8a24e9f3e9478cc4eb7602b366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 133/161] fix: the parts of a chroma block are predicted from
 their own blocks

---
 internal/tilegroup/compute_prediction.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 4d612d7..e3c8bce 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -77,11 +77,13 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				candCol = state.MiCol
 			}
 			r := 0
-			for y := 0; y < num4x4H; y += predH {
+			for y := 0; y < num4x4H*4; y += predH {
 				c := 0
-				for x := 0; x < num4x4W; x += predW {
+				for x := 0; x < num4x4W*4; x += predW {
 					t.predictInter(plane, baseX+x, baseY+y, predW, predH, candRow+r, candCol+c, state, uh, sh)
+					c++
 				}
+				r++
 			}
 		}
 	}
-- 
2.43.0


From d1b27e0acc6d407a41a41e48e4212ef0a515b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:42 +0000
Subject: [PATCH 134/161] fix: only chroma restoration units are subsampled

---
 internal/tilegroup/read_loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index c941023..fb03ea9 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -25,11 +25,11 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 			subX := 0
 			subY := 0
 
-			if sh.ColorConfig.SubsamplingX {
+			if plane > 0 && sh.ColorConfig.SubsamplingX {
 				subX = 1
 			}
 
-			if sh.ColorConfig.SubsamplingY {
+			if plane > 0 && sh.ColorConfig.SubsamplingY {
 				subY = 1
 			}
 
-- 
2.43.0


From 9fc6377fb1d22df60efac3578f7afc5531175409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:44 +0000
Subject: [PATCH 135/161] fix: both chroma planes have two Wiener taps

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index fb03ea9..68346bb 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -84,7 +84,7 @@ func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state
 	if restorationType == shared.RESTORE_WIENER {
 		for pass := 0; pass < 2; pass++ {
 			var firstCoeff int
-			if plane == 1 {
+			if plane > 0 {
 				firstCoeff = 1
 				t.LrWiener[plane][unitRow][unitCol][pass][0] = 0
 			} else {
-- 
2.43.0


From 0ec7e54e4b358e4c5cd73992738686ba313ccf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:46 +0000
Subject: [PATCH 136/161] fix: the subexponential code of restoration
 coefficients

---
 internal/tilegroup/read_loop_restoration.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 68346bb..1242830 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -145,14 +145,14 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 	mk := 0
 	for {
 		b2 := k
-		if i == 1 {
+		if i > 0 {
 			b2 = k + i - 1
 		}
 
 		a := 1 << b2
 
-		if numSyms <= -mk+3*a {
-			subexpUnifBools := literal.L(1, state, b, uh)
+		if numSyms <= mk+3*a {
+			subexpUnifBools := literal.NS(numSyms-mk, state, b, uh)
 			return subexpUnifBools + mk
 		} else {
 			subexpMoreBools := literal.L(1, state, b, uh) != 0
-- 
2.43.0


From 01cb8c301af45c27b07d290977019589dd73869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:48 +0000
Subject: [PATCH 137/161] fix: coefficients of every restoration unit are
 stored

---
 internal/tilegroup/tile_group.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index ad93c5e..52277cc 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -123,12 +123,12 @@ const DIV_LUT_PREC_BITS = 13
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-	LrType              [3][1][1]int
+	LrType              [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	RefLrWiener         [3][2][3]int
-	LrWiener            [][][][][3]int
-	LrSgrSet            [3][1][1]int
+	LrWiener            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2][3]int
+	LrSgrSet            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	RefSgrXqd           [3][2]int
-	LrSgrXqd            [3][1][1][2]int
+	LrSgrXqd            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	HasChroma           bool
 	SegmentId           int
 	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-- 
2.43.0


From a341312a4fbad955f93b374711fae62e867567c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:32 +0000
Subject: [PATCH 138/161] fix: the loop filter visits every edge of luma

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 96ee525..4769cc9 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane == 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+				if plane > 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
-- 
2.43.0


From 502a9ae6a7b8732e07ae0b29808e8de66e1c1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:33 +0000
Subject: [PATCH 139/161] fix: strength and size of the loop filter

---
 internal/tilegroup/loop_filter_process.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 4769cc9..19dd562 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -116,7 +116,7 @@ func (t *TileGroup) loopFilterEdge(plane int, pass bool, row int, col int, sh se
 	lvl, limit, blimit, thresh := t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 
 	if lvl == 0 {
-		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
+		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(prevRow, prevCol, plane, pass, state, uh)
 	}
 
 	for i := 0; i < MI_SIZE; i++ {
@@ -132,8 +132,7 @@ func (t *TileGroup) filterSize(txSz int, prevTxSz int, pass bool, plane int) int
 	if !pass {
 		baseSize = util.Min(Tx_Width[prevTxSz], Tx_Width[txSz])
 	} else {
-		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[prevTxSz])
-
+		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[txSz])
 	}
 
 	if plane == 0 {
@@ -150,7 +149,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	mode := t.YModes[row][col]
 
 	var modeType int
-	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV {
+	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV && mode != shared.GLOBAL_GLOBALMV {
 		modeType = 1
 	} else {
 		modeType = 0
@@ -173,7 +172,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	if uh.LoopFilterSharpness > 4 {
 		shift = 2
 	} else if uh.LoopFilterSharpness > 0 {
-		shift = 2
+		shift = 1
 	} else {
 		shift = 0
 	}
-- 
2.43.0


From fad3ac3758e5e9743e1646eabaa2fd5d2c4c7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:35 +0000
Subject: [PATCH 140/161] fix: the loop filter reads and writes only samples of
 its edge

---
 internal/tilegroup/loop_filter_process.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 19dd562..2d2322d 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -242,16 +242,10 @@ func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, t
 	q1 := state.CurrFrame[plane][y+dy][x+dx]
 	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
 	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
-	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
-	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
-	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
 	p0 := state.CurrFrame[plane][y-dy][x-dx]
 	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
 	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
 	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
-	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
-	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
-	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
@@ -303,6 +297,12 @@ func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, t
 	var flatMask2 int
 	thresholdBd = 1 << (sh.ColorConfig.BitDepth - 8)
 	if filterSize >= 16 {
+		q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
+		q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
+		q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
+		p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
+		p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
+		p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
 		mask = 0
 		mask |= util.Int((util.Abs(p6-p0) > thresholdBd))
 		mask |= util.Int((util.Abs(q6-q0) > thresholdBd))
@@ -370,7 +370,7 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 		n2 = 1
 	}
 
-	var F []int
+	var F [12]int
 	for i := -n; i < n; i++ {
 		t := 0
 		for j := -n; j <= n; j++ {
@@ -383,9 +383,9 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 			}
 			t += state.CurrFrame[plane][y+p*dy][x+p*dx] * tap
 		}
-		F[i] = util.Round2(t, log2Size)
+		F[n+i] = util.Round2(t, log2Size)
 	}
 	for i := -n; i < n; i++ {
-		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i]
+		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[n+i]
 	}
 }
-- 
2.43.0


From 8d4a77f7bf48fd05d6c64089aaa7ff17bfe0058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:36 +0000
Subject: [PATCH 141/161] fix: damping and taps of the constrained directional
 filter

---
 internal/tilegroup/cdef.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 189cbd7..d0a8c98 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -97,8 +97,8 @@ func (t *TileGroup) cdefBlock(r int, c int, idx int, state *state.State, sh sequ
 			dir = 0
 		} else {
 			dir = CDEF_UV_DIR[util.Int(sh.ColorConfig.SubsamplingX)][util.Int(sh.ColorConfig.SubsamplingY)][yDir]
-			damping = uh.CdefDampening + coeffShift - 1
 		}
+		damping = uh.CdefDampening + coeffShift - 1
 
 		t.cdefFilter(1, r, c, priStr, secStr, damping, dir, state, sh, uh)
 		t.cdefFilter(2, r, c, priStr, secStr, damping, dir, state, sh, uh)
@@ -187,7 +187,7 @@ func (t *TileGroup) cdefFilter(plane int, r int, c int, priStr int, secStr int,
 	// "MiColStart, MiRowStart, MiColEnd, MiRowEnd are set equal to the values
 	// they had when the syntax element MiSizes[r][c] was written."
 
-	coeffShift := sh.ColorConfig.BitDepth
+	coeffShift := sh.ColorConfig.BitDepth - 8
 	var subX, subY int
 	if plane > 0 {
 		subX = util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From 9229aadc45e86122de4c0e73b3ac2d761d18c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:38 +0000
Subject: [PATCH 142/161] fix: frames without superres are not shifted by a
 sample

---
 internal/tilegroup/decode_frame_wrapup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index f665457..ed9d028 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -10,6 +10,10 @@ import (
 
 // 7.16 Upscaling process
 func (t *TileGroup) upscalingProcess(inputFrame state.Frame, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) state.Frame {
+	if !uh.UseSuperRes {
+		return inputFrame.Clone()
+	}
+
 	outputFrame := state.NewFrame(uh.UpscaledWidth, uh.FrameHeight)
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
-- 
2.43.0


From 8ec1ec79884cb2a918bfa374bf401f80e0dc9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:39 +0000
Subject: [PATCH 143/161] fix: columns of restoration units are not offset

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 64d9784..a65b26b 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -51,7 +51,7 @@ func (t *TileGroup) loopRestoreBlock(plane int, row int, col int, state *state.S
 	unitCols := util.CountUnitsInFrame(unitSize, util.Round2(uh.UpscaledWidth, subX))
 
 	unitRow := util.Min(unitRows-1, ((row*MI_SIZE+8)>>subY)/unitSize)
-	unitCol := util.Min(unitCols-1, ((col*MI_SIZE+8)>>subX)/unitSize)
+	unitCol := util.Min(unitCols-1, ((col*MI_SIZE)>>subX)/unitSize)
 
 	t.PlaneEndX = util.Round2(uh.UpscaledWidth, subX) - 1
 	t.PlaneEndY = util.Round2(uh.FrameHeight, subY) - 1
-- 
2.43.0


From 6633b213d8d4c6740853c99394c53e6c50411ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:41 +0000
Subject: [PATCH 144/161] fix: the box filter covers its whole block

---
 internal/tilegroup/loop_restoration.go | 43 ++++++--------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index a65b26b..d6dce88 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -104,11 +104,11 @@ func (t *TileGroup) selfGuidedFilter(plane int, unitRow int, unitCol int, x int,
 }
 
 // 7.17.3. Box filter process
-func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [1][1]int {
+func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [MI_SIZE][MI_SIZE]int {
 
 	r := SGR_PARAMS[set][util.Int(pass)*2+0]
 	if r == 0 {
-		return [1][1]int{}
+		return [MI_SIZE][MI_SIZE]int{}
 	}
 
 	eps := SGR_PARAMS[set][util.Int(pass)*2+1]
@@ -117,7 +117,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 	n2e := n * n * eps
 	s := (((1 << SGRPROJ_MTABLE_BITS) + n2e/2) / n2e)
 
-	var A, B [3][3]int
+	// from row and column -1
+	var A, B [MI_SIZE + 2][MI_SIZE + 2]int
 	for i := -1; i < h+1; i++ {
 		for j := -1; j < w+1; j++ {
 			a := 0
@@ -144,25 +145,12 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 			oneOverN := ((1 << SGRPROJ_RECIP_BITS) + (n / 2)) / n
 			b2 := ((1 << SGRPROJ_SGR_BITS) - a2) * b * oneOverN
 
-			// ugly negative indexing workaround
-			if i == -1 && j == -1 {
-				A[len(A)-1][len(A[len(A)-1])-1] = a2
-				B[len(B)-1][len(B[len(B)-1])-1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			} else if i == -1 {
-				A[len(A)-1][j] = a2
-				B[len(B)-1][j] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			} else if j == -1 {
-				A[i][len(A[i])-1] = a2
-				B[i][len(B[i])-1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-
-			} else {
-				A[i][j] = a2
-				B[i][j] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			}
+			A[i+1][j+1] = a2
+			B[i+1][j+1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
 		}
 	}
 
-	var F [1][1]int
+	var F [MI_SIZE][MI_SIZE]int
 	for i := 0; i < h; i++ {
 		shift := 5
 		if !pass && util.Bool(i&1) {
@@ -192,21 +180,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 						}
 					}
 
-					// ugly negative indexing workaround
-					if i+dy == -1 && j+dx == -1 {
-						a += weight * A[len(A)-1][len(A[len(A)-1])-1]
-						b += weight * B[len(B)-1][len(B[len(B)-1])-1]
-					} else if i+dy == -1 {
-						a += weight * A[len(A)-1][j+dx]
-						b += weight * B[len(B)-1][j+dx]
-					} else if j+dx == -1 {
-						a += weight * A[i+dy][len(A[len(A)-1])-1]
-						b += weight * B[i+dy][len(B[len(B)-1])-1]
-					} else {
-						a += weight * A[i+dy][j+dx]
-						b += weight * B[i+dy][j+dx]
-
-					}
+					a += weight * A[i+dy+1][j+dx+1]
+					b += weight * B[i+dy+1][j+dx+1]
 				}
 			}
 			v := a*state.UpscaledCdefFrame[plane][y+i][x+j] + b
-- 
2.43.0


From c8530f04c5f771d7c66fbf5ba2d526df36dadb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:42 +0000
Subject: [PATCH 145/161] fix: the Wiener filter is symmetric and has room for
 its rows

---
 internal/tilegroup/loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index d6dce88..5d04c98 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -208,7 +208,7 @@ func (tg *TileGroup) wienerFilter(plane int, unitRow int, unitCol int, x int, y
 	offset := (1 << (sh.ColorConfig.BitDepth + FILTER_BITS - tg.InterRound0 - 1))
 	limit := (1 << (sh.ColorConfig.BitDepth + 1 + FILTER_BITS - tg.InterRound0)) - 1
 
-	var intermediate [][]int
+	var intermediate [MI_SIZE + 6][MI_SIZE]int
 	for r := 0; r < h+6; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -238,7 +238,7 @@ func (t *TileGroup) wienerCoefficient(coeff [3]int) [7]int {
 	for i := 0; i < 3; i++ {
 		c := coeff[i]
 		filter[i] = c
-		filter[6-1] = c
+		filter[6-i] = c
 		filter[3] -= 2 * c
 	}
 
-- 
2.43.0


From 4258b9dd0127fc7aded4356f14fd1e9572728508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:08 +0000
Subject: [PATCH 146/161] fix: derive the rounding that follows the blending of
 predictions

---
 internal/tilegroup/predict_inter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 2a7ba2a..b92c55f 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -198,6 +198,8 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 		t.InterRound1 = t.InterRound1 - 2
 	}
 
+	// both filter passes together scale by 14 bits
+	t.InterPostRound = 14 - t.InterRound0 - t.InterRound1
 }
 
 // 7.11.3.3  Motion vector scaling process
-- 
2.43.0


From a8f8f76854e73227758b977460a601404ce8eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:09 +0000
Subject: [PATCH 147/161] fix: predict inter blocks of up to 128x128 samples,
 at up to double scale

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index b92c55f..0dc4ef0 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -17,7 +17,7 @@ var Quant_Dist_Lookup = [][]int{
 	{9, 7}, {11, 5}, {12, 4}, {13, 3},
 }
 
-const PRED_SIZE = 16
+const PRED_SIZE = 128
 
 // 7.11.3 Inter prediction process
 func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
@@ -279,7 +279,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var intermediate [8][8]int
+	var intermediate [2*PRED_SIZE + 8][PRED_SIZE]int
 	for r := 0; r < intermediateHeight; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
-- 
2.43.0


From 8bd3550fef820e31d093847b2914e7c35862ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:09 +0000
Subject: [PATCH 148/161] fix: mask the fraction of a position to find its
 filter

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 0dc4ef0..de52a0b 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -285,7 +285,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := x + xStep*c
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
 			}
 			intermediate[r][c] = util.Round2(s, t.InterRound0)
 		}
@@ -306,7 +306,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := (y & 1023) + yStep*r
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
 			}
 			pred[r][c] = util.Round2(s, t.InterRound1)
 		}
-- 
2.43.0


From 88a42b346dae8debfc6ebb0405c0be4bec018c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:10 +0000
Subject: [PATCH 149/161] fix: intra block copy uses the size of the current
 frame and leaves the references alone

---
 internal/tilegroup/predict_inter.go | 46 +++++++++++------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index de52a0b..05c7668 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -59,18 +59,9 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 	} else {
 		refIdx = -1
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
 	}
 	startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
-	if util.Bool(t.useIntrabc) {
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
-	}
-
 	var preds [2][PRED_SIZE][PRED_SIZE]int
 	if useWarp != 0 {
 		for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
@@ -113,19 +104,10 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 		} else {
 			refIdx = -1
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
 		}
 
 		startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
-		if util.Bool(t.useIntrabc) {
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
-		}
-
 		var preds [][PRED_SIZE][PRED_SIZE]int
 		if useWarp != 0 {
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
@@ -204,27 +186,30 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 
 // 7.11.3.3  Motion vector scaling process
 func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y int, mv [2]int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) (int, int, int, int) {
-	if !(2*uh.FrameWidth >= state.RefUpscaledWidth[refIdx]) {
+	// intra block copy predicts from the current frame
+	refWidth, refHeight := uh.UpscaledWidth, uh.FrameHeight
+	if refIdx != -1 {
+		refWidth, refHeight = state.RefUpscaledWidth[refIdx], state.RefFrameHeight[refIdx]
+	}
+
+	if !(2*uh.FrameWidth >= refWidth) {
 		panic("bitstream conformance violated: 2*uh.FrameWidth >= t.RefUpscaledWidth[refIdx]")
 	}
 
-	if !(2*uh.FrameHeight >= state.RefFrameHeight[refIdx]) {
+	if !(2*uh.FrameHeight >= refHeight) {
 		panic("bitstream conformance violated: 2*uh.FrameHeight >= t.RefFrameHeight[refIdx]")
 	}
 
-	if !(uh.FrameWidth <= 16*state.RefUpscaledWidth[refIdx]) {
+	if !(uh.FrameWidth <= 16*refWidth) {
 		panic("bitstream conformance violated: uh.FrameWidth <= 16*t.RefUpscaledWidth[refIdx]")
 	}
 
-	if !(uh.FrameHeight <= 16*state.RefFrameHeight[refIdx]) {
+	if !(uh.FrameHeight <= 16*refHeight) {
 		panic("bitstream conformance violated: uh.FrameHeight <= 16*t.RefFrameHeight[refIdx]")
 	}
 
-	// TODO: Note: When intra block copy is being used, refIdx will be equal to -1 to signal prediction from the frame currently
-	// being decoded. The arrays RefFrameWidth, RefFrameHeight, and RefUpscaledWidth include values at index -1
-	// giving the dimensions of the current frame.
-	xScale := ((state.RefUpscaledWidth[refIdx] << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
-	yScale := ((state.RefFrameHeight[refIdx] << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
+	xScale := ((refWidth << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
+	yScale := ((refHeight << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
 
 	subX := 0
 	subY := 0
@@ -253,9 +238,12 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
+	// intra block copy predicts from the whole blocks of the current frame
 	ref := state.CurrFrame
+	refWidth, refHeight := state.MiCols*MI_SIZE, state.MiRows*MI_SIZE
 	if refIdx != -1 {
 		ref = state.FrameStore[refIdx]
+		refWidth, refHeight = state.RefUpscaledWidth[refIdx], state.RefFrameHeight[refIdx]
 	}
 
 	subX := 0
@@ -265,8 +253,8 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		subY = util.Int(sh.ColorConfig.SubsamplingY)
 	}
 
-	lastX := ((state.RefUpscaledWidth[refIdx] + subX) >> subX) - 1
-	lastY := ((state.RefFrameHeight[refIdx] + subY) >> subY) - 1
+	lastX := ((refWidth + subX) >> subX) - 1
+	lastY := ((refHeight + subY) >> subY) - 1
 
 	intermediateHeight := (((h-1)*yStep + (1 << SCALE_SUBPEL_BITS) - 1) >> SCALE_SUBPEL_BITS) + 8
 
-- 
2.43.0


From 5c772e8204f7b68495096427250a29f8f584c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:10 +0000
Subject: [PATCH 150/161] fix: overlapped motion from above fades by rows, from
 the left by columns

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 05c7668..e6554a8 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -525,7 +525,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 					nCount += 1
 					predW := util.Min(w, (step4*MI_SIZE)>>subX)
 					predH := util.Min(h>>1, 32>>subY)
-					mask := util.GetObmcMask(predW)
+					mask := util.GetObmcMask(predH)
 
 					// predict_overlap( )
 					mv := t.Mvs[candRow][candCol][0]
@@ -549,7 +549,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 	}
 
 	if state.AvailL {
-		pass := 0
+		pass := 1
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 		x4 := state.MiCol
 		y4 := state.MiRow
-- 
2.43.0


From 0a33cb136483d4d3f41746a31bbe3e5678fd8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:11 +0000
Subject: [PATCH 151/161] fix: make room for the blending mask

---
 internal/tilegroup/predict_inter.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index e6554a8..1383081 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -604,9 +604,18 @@ func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, pred
 	}
 }
 
+func makeMask(w int, h int) [][]int {
+	mask := make([][]int, h)
+	for i := range mask {
+		mask[i] = make([]int, w)
+	}
+	return mask
+}
+
 // 7.11.3.11 Wedge mask process
 func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
 	wedgemask.InitialiseWedgeMaskTable(state)
+	t.Mask = makeMask(w, h)
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
 			t.Mask[i][j] = wedgemask.WedgeMasks[state.MiSize][t.WedgeSign][t.WedgeIndex][i][j]
@@ -616,6 +625,7 @@ func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
 
 // 7.11.3.12 Difference weight mask process
 func (t *TileGroup) differenceWeightMaskProcess(preds [2][PRED_SIZE][PRED_SIZE]int, w int, h int, sh sequenceheader.SequenceHeader) {
+	t.Mask = makeMask(w, h)
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
 			diff := util.Abs(preds[0][i][j] - preds[1][i][j])
@@ -632,6 +642,7 @@ func (t *TileGroup) differenceWeightMaskProcess(preds [2][PRED_SIZE][PRED_SIZE]i
 
 // 7.11.3.13 Intra mode variant mask proces
 func (t *TileGroup) intraModeVariantMaskProcess(w int, h int) {
+	t.Mask = makeMask(w, h)
 	sizeScale := MAX_SB_SIZE / util.Max(h, w)
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
-- 
2.43.0


From d496b67f78b95efe316659dca58d25995f57dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:11 +0000
Subject: [PATCH 152/161] fix: make room for the distances of both references

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 1383081..93f617e 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -695,7 +695,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane i
 
 // 7.11.3.15 Distance weights process
 func (t *TileGroup) distanceWeightsProcess(candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	var dist []int
+	var dist [2]int
 	for refList := 0; refList < 2; refList++ {
 		h := uh.OrderHints[state.RefFrames[candRow][candCol][refList]]
 		dist[refList] = util.Clip3(0, MAX_FRAME_DISTANCE, util.Abs(uh.GetRelativeDist(h, uh.OrderHint, sh)))
-- 
2.43.0


From c2070e541d336c44f9451434430d0e47b53b9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:11 +0000
Subject: [PATCH 153/161] fix: clip the blend of two predictions to the sample
 range

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 93f617e..5f0108f 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -687,7 +687,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane i
 			} else {
 				pred0 := preds[0][y][x]
 				pred1 := preds[1][y][x]
-				state.CurrFrame[plane][y+dstY][x+dstX] = util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound)
+				state.CurrFrame[plane][y+dstY][x+dstX] = util.Clip1(util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	}
-- 
2.43.0


From eb624700deb283a596e9982f8d78d19f9097b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:12 +0000
Subject: [PATCH 154/161] fix: write every column of an inter prediction

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 5f0108f..74544b0 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -138,19 +138,19 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	if !isCompound && !t.IsInterIntra {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_AVERAGE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_DISTANCE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else {
-- 
2.43.0


From f1ec3b67d05789bb3be35096aab2c6c966cd918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:12 +0000
Subject: [PATCH 155/161] fix: keep the second prediction of compound blocks

---
 internal/tilegroup/predict_inter.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 74544b0..64dc88c 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -108,7 +108,6 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 
 		startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
-		var preds [][PRED_SIZE][PRED_SIZE]int
 		if useWarp != 0 {
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 				for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-- 
2.43.0


From cb325faad28e50a94ef7d8d457f0126d498c9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:13 +0000
Subject: [PATCH 156/161] fix: difference weights come from luma alone

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 64dc88c..7aac69b 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -126,7 +126,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		t.wedgeMaskProcess(w, h, state)
 	} else if t.CompoundType == COMPOUND_INTRA {
 		t.intraModeVariantMaskProcess(w, h)
-	} else if t.CompoundType == COMPOUND_DIFFWTD {
+	} else if t.CompoundType == COMPOUND_DIFFWTD && plane == 0 {
 		t.differenceWeightMaskProcess(preds, w, h, sh)
 	}
 
-- 
2.43.0


From 8340b093ace586d87daded6a8ecd06ff6d7a19b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:13 +0000
Subject: [PATCH 157/161] fix: every 8x8 part of a warped block keeps its
 prediction

---
 internal/tilegroup/predict_inter.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 7aac69b..32c88d3 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -66,8 +66,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	if useWarp != 0 {
 		for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 			for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-				// TODO: what exactly is supposed to happen here
-				preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+				t.blockWarpProcess(&preds[refList], useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
 			}
 		}
 	}
@@ -111,8 +110,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		if useWarp != 0 {
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 				for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-					// TODO: what exactly is supposed to happen here
-					preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+					t.blockWarpProcess(&preds[refList], useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
 				}
 			}
 		}
@@ -303,9 +301,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 }
 
 // 7.11.3.5 Block warp process
-func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var pred [PRED_SIZE][PRED_SIZE]int
-
+func (t *TileGroup) blockWarpProcess(pred *[PRED_SIZE][PRED_SIZE]int, useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
 	ref := state.FrameStore[refIdx]
 
@@ -368,8 +364,6 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 			pred[i8*8+i1+4][j8*8+i2+4] = util.Round2(s, t.InterRound1)
 		}
 	}
-
-	return pred
 }
 
 // 7.11.3.6 Setup shear process
-- 
2.43.0


From 09cc2ba9d2ab1ef4e6fe444a8963bd832930ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:14 +0000
Subject: [PATCH 158/161] fix: make room for the rows of a warped block

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 32c88d3..b1efad1 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -337,7 +337,7 @@ func (t *TileGroup) blockWarpProcess(pred *[PRED_SIZE][PRED_SIZE]int, useWarp in
 	iy4 := y4 >> shared.WARPEDMODEL_PREC_BITS
 	sy4 := y4 & ((1 << shared.WARPEDMODEL_PREC_BITS) - 1)
 
-	var intermediate [][]int
+	var intermediate [15][8]int
 	for i1 := -7; i1 < 8; i1++ {
 		for i2 := -4; i2 < 4; i2++ {
 			sx := sx4 + alpha*i2 + beta*i1
-- 
2.43.0


From 7d6db2119bb7956902b76462d675c50cba5f0864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:14 +0000
Subject: [PATCH 159/161] fix: correct a digit in the table of reciprocals

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index b1efad1..4851822 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -838,7 +838,7 @@ var Div_Lut = []int{
 	11125, 11096, 11067, 11038, 11009, 10980, 10951, 10923, 10894, 10866, 10838,
 	10810, 10782, 10755, 10727, 10700, 10673, 10645, 10618, 10592, 10565, 10538,
 	10512, 10486, 10460, 10434, 10408, 10382, 10356, 10331, 10305, 10280, 10255,
-	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 99869,
+	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 9986,
 	9963, 9939, 9916, 9892, 9869, 9846, 9823, 9800, 9777, 9754, 9732,
 	9709, 9687, 9664, 9642, 9620, 9598, 9576, 9554, 9533, 9511, 9489,
 	9468, 9447, 9425, 9404, 9383, 9362, 9341, 9321, 9300, 9279, 9259,
-- 
2.43.0


From 7e768107455aedb37fb812743a56a08452d0d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:15 +0000
Subject: [PATCH 160/161] fix: reciprocals have 14 bits of precision

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 52277cc..4dd540d 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -119,7 +119,7 @@ const REF_SCALE_SHIFT = 14
 const INTRA_FILTER_SCALE_BITS = 4
 
 const LS_MV_MAX = 256
-const DIV_LUT_PREC_BITS = 13
+const DIV_LUT_PREC_BITS = 14
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-- 
2.43.0


From 1f6e702f00f712885bd7ca72abbf34db47347c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:15 +0000
Subject: [PATCH 161/161] fix: the least squares of local warps follow the
 format

---
 internal/tilegroup/predict_inter.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 4851822..bed4fa6 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -420,17 +420,9 @@ func (t *TileGroup) resolveDivisorProcess(d int) (int, int) {
 
 // 7.11.3.8 Warp estimation process
 func (t *TileGroup) warpEstimationProcess(state *state.State) {
-	var A [][]int
-	var Bx []int
-	var By []int
-	for i := 0; i < 2; i++ {
-		for j := 0; j < 2; j++ {
-			A[i][j] = 0
-		}
-
-		Bx[i] = 0
-		By[i] = 0
-	}
+	var A [2][2]int
+	var Bx [2]int
+	var By [2]int
 
 	// TODO: matrix is symmetrical, so an entry is omitted!
 	w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
@@ -451,11 +443,11 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 		if util.Abs(sx-dx) < LS_MV_MAX && util.Abs(sy-dy) < LS_MV_MAX {
 			A[0][0] += util.LsProduct(sx, sx) + 8
 			A[0][1] += util.LsProduct(sx, sy) + 4
-			A[1][1] += util.LsProduct(sy, sx) + 8
+			A[1][1] += util.LsProduct(sy, sy) + 8
 			Bx[0] += util.LsProduct(sx, dx) + 8
 			Bx[1] += util.LsProduct(sy, dx) + 4
-			Bx[0] += util.LsProduct(sx, dy) + 4
-			Bx[1] += util.LsProduct(sy, dy) + 8
+			By[0] += util.LsProduct(sx, dy) + 4
+			By[1] += util.LsProduct(sy, dy) + 8
 		}
 	}
 
@@ -473,19 +465,19 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	divShift -= shared.WARPEDMODEL_PREC_BITS
 
 	if divShift < 0 {
-		divFactor = divFactor << (divShift)
+		divFactor = divFactor << (-divShift)
 		divShift = 0
 	}
 
 	t.LocalWarpParams[2] = t.diag(A[1][1]*Bx[0]-A[0][1]*Bx[1], divFactor, divShift)
-	t.LocalWarpParams[3] = t.nondiag(-A[1][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
+	t.LocalWarpParams[3] = t.nondiag(-A[0][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
 	t.LocalWarpParams[4] = t.nondiag(A[1][1]*By[0]-A[0][1]*By[1], divFactor, divShift)
-	t.LocalWarpParams[5] = t.diag(-A[1][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
+	t.LocalWarpParams[5] = t.diag(-A[0][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
 
 	mvx := t.Mv[0][1]
 	mvy := t.Mv[0][0]
 	vx := mvx*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*(t.LocalWarpParams[2]-(1<<shared.WARPEDMODEL_PREC_BITS)) + midY*t.LocalWarpParams[3])
-	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX * (t.LocalWarpParams[4] + midY + (t.LocalWarpParams[5]) - (1 << shared.WARPEDMODEL_PREC_BITS)))
+	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*t.LocalWarpParams[4] + midY*(t.LocalWarpParams[5]-(1<<shared.WARPEDMODEL_PREC_BITS)))
 
 	t.LocalWarpParams[0] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vx)
 	t.LocalWarpParams[1] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vy)
-- 
2.43.0

