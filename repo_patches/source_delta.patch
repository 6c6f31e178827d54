From 568a46d0a4427f905d144c46d71d89e5defa7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 001/189] fix: break the uncompressedheader -> tilegroup import
 cycle so the decoder builds

loadPrevious called two tilegroup stubs that only panic("not implemented");
it panics with the same message itself right after.
---
 internal/uncompressedheader/uncompressed_header.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a26a0d5..067e316 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -6,7 +6,6 @@ import (
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
-	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/tileinfo"
 	"github.com/m4tthewde/gov1/internal/util"
 )
@@ -631,9 +630,6 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	tilegroup.LoadLoopFilterParams(prevFrame)
-	tilegroup.LoadSegmentationParams(prevFrame)
-
 	panic("not implemented")
 }
 
-- 
2.43.0


From c52fa64385c7d030d8283d05b836517c0f3f517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 002/189] fix: Round2Signed rounds its argument instead of the
 constant 2

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 688fa5f..3561505 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -94,7 +94,7 @@ func Round2(x int, n int) int {
 
 func Round2Signed(x int, n int) int {
 	if x >= 0 {
-		return Round2(2, n)
+		return Round2(x, n)
 	} else {
 		return -Round2(-x, n)
 	}
-- 
2.43.0


From adbf380e4b7d230e7afa22b4258beb915878be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 003/189] fix: Clip1 clips its argument to the sample range of
 the bit depth

---
 internal/util/util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 3561505..d224c53 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"math"
 	"sort"
 
 	"github.com/m4tthewde/gov1/internal/shared"
@@ -123,7 +122,7 @@ func Clip3(x int, y int, z int) int {
 }
 
 func Clip1(x int, bitDepth int) int {
-	return Clip3(0, int(math.Pow(2, float64(bitDepth)-1)), 2)
+	return Clip3(0, (1<<bitDepth)-1, x)
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-- 
2.43.0


From 4c37f014e36e988ad287d76a66e177eca3dc8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 004/189] fix: NegDeinterleave treats every non-zero reference
 and mirrors the tail

---
 internal/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index d224c53..85d68db 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -126,7 +126,7 @@ func Clip1(x int, bitDepth int) int {
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-	if !(ref == 1) {
+	if ref == 0 {
 		return diff
 	}
 
@@ -152,7 +152,7 @@ func NegDeinterleave(diff int, ref int, max int) int {
 				return ref - (diff >> 1)
 			}
 		}
-		return max - diff + 1
+		return max - (diff + 1)
 	}
 }
 
-- 
2.43.0


From 9d63ac7376aecfe7990ff50f16d972c59a9627f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 005/189] fix: Cos128 selects the quadrant of the angle

---
 internal/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 85d68db..354973f 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -223,17 +223,17 @@ var Cos128_Lookup = []int{
 
 func Cos128(angle int) int {
 	angle2 := angle & 255
-	if angle2 >= 0 || angle2 <= 64 {
+	if angle2 >= 0 && angle2 <= 64 {
 		return Cos128_Lookup[angle2]
 	}
-	if angle2 >= 64 || angle2 <= 128 {
+	if angle2 >= 64 && angle2 <= 128 {
 		return Cos128_Lookup[128-angle2] * -1
 	}
-	if angle2 >= 128 || angle2 <= 192 {
+	if angle2 >= 128 && angle2 <= 192 {
 		return Cos128_Lookup[angle2-128] * -1
 	}
 
-	return Cos128_Lookup[256-angle2] * -1
+	return Cos128_Lookup[256-angle2]
 }
 
 func Sin128(angle int) int {
-- 
2.43.0


From dc558f042090ed3eb93eabaf9cc1c8cd2ff42f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 006/189] fix: Brev reverses each bit of its argument

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 354973f..a68a1b1 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -243,7 +243,7 @@ func Sin128(angle int) int {
 func Brev(numBits int, x int) int {
 	t := 0
 	for i := 0; i < numBits; i++ {
-		bit := (x >> 1) & 1
+		bit := (x >> i) & 1
 		t += bit << (numBits - 1 - i)
 	}
 
-- 
2.43.0


From 4dd4d5dc2b89a95e8c548ebaf6df094135c241dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 007/189] fix: first entry of the 32-sample OBMC mask is 33

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index a68a1b1..b32000d 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -200,7 +200,7 @@ var Obmc_Mask_4 = []int{39, 50, 59, 64}
 var Obmc_Mask_8 = []int{36, 42, 48, 53, 57, 61, 64, 64}
 var Obmc_Mask_16 = []int{34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64}
 var Obmc_Mask_32 = []int{
-	3, 35, 36, 38, 40, 41, 43, 44,
+	33, 35, 36, 38, 40, 41, 43, 44,
 	45, 47, 48, 50, 51, 52, 53, 55,
 	56, 57, 58, 59, 60, 60, 61, 62,
 	64, 64, 64, 64, 64, 64, 64, 64,
-- 
2.43.0


From 24df74fab2001faebbfee6ce52db70975b1f87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 008/189] fix: 128x128 superblocks count rows as rows, not
 columns

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 1a9cd19..3bbcf17 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -22,7 +22,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 	sbRows := (s.MiRows + 15) >> 4
 	if sh.Use128x128SuperBlock {
-		sbCols = (s.MiRows + 31) >> 5
+		sbRows = (s.MiRows + 31) >> 5
 	}
 
 	sbShift := 4
-- 
2.43.0


From 9ed6e2508f43c9ff5f7c8519e0e1a05538b524d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 009/189] fix: read increment_tile_rows_log2 while below the
 maximum

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 3bbcf17..fcf37a4 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -67,7 +67,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 		minLog2TileRows := util.Max(minLog2Tiles-s.TileColsLog2, 0)
 		s.TileRowsLog2 = minLog2TileRows
-		for s.TileRowsLog2 > maxLog2TileRows {
+		for s.TileRowsLog2 < maxLog2TileRows {
 			incrementTileRowsLog2 := b.F(1) != 0
 			if incrementTileRowsLog2 {
 				s.TileRowsLog2++
-- 
2.43.0


From 034c47e27c5300878cd88fd3366191502da06f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 010/189] fix: seq_level_idx[0] is coded up front only in a
 reduced still picture header

---
 internal/sequenceheader/sequence_header.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f56b718..2418201 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -110,13 +110,15 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 	operatingPointIdcArray := []int{0}
 
-	s.SeqLevelIdx = []int{b.F(5)}
+	s.SeqLevelIdx = []int{0}
 	s.SeqTier = []int{0}
 	s.DecoderModelPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayMinusOne = []int{}
 
-	if !s.ReducedStillPictureHeader {
+	if s.ReducedStillPictureHeader {
+		s.SeqLevelIdx[0] = b.F(5)
+	} else {
 		timingInfoPresent := b.F(1) != 0
 		if timingInfoPresent {
 			s.TimingInfo = NewTimingInfo(b)
-- 
2.43.0


From 320d083af63deaac38c84f2b91234678922aedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 011/189] fix: seq_level_idx is a 5 bit field

---
 internal/sequenceheader/sequence_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 2418201..6ac4d12 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -138,7 +138,7 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
 				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(12)
+				s.SeqLevelIdx[i] = b.F(5)
 
 				if s.SeqLevelIdx[i] > 7 {
 					s.SeqTier[i] = b.F(1)
-- 
2.43.0


From caeb0595113320e135d316ed974bd502e4e5f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 012/189] fix: operating points are coded whether or not timing
 info is present

---
 internal/sequenceheader/sequence_header.go | 44 +++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 6ac4d12..371468d 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -132,35 +132,35 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 					FramePresentationTimeLengthMinusOne: b.F(5),
 				}
 			}
+		}
 
-			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
-			s.OperatingPointsCountMinusOne = b.F(5)
+		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
+		s.OperatingPointsCountMinusOne = b.F(5)
 
-			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
-				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(5)
+		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
+			operatingPointIdcArray[i] = b.F(12)
+			s.SeqLevelIdx[i] = b.F(5)
 
-				if s.SeqLevelIdx[i] > 7 {
-					s.SeqTier[i] = b.F(1)
-				} else {
-					s.SeqTier[i] = 0
-				}
-				if s.DecoderModelInfoPresent {
-					s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.SeqLevelIdx[i] > 7 {
+				s.SeqTier[i] = b.F(1)
+			} else {
+				s.SeqTier[i] = 0
+			}
+			if s.DecoderModelInfoPresent {
+				s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.DecoderModelPresentForThisOp[i] {
-						s.operatingParametersInfo(b, i)
-					}
-				} else {
-					s.DecoderModelPresentForThisOp[i] = false
+				if s.DecoderModelPresentForThisOp[i] {
+					s.operatingParametersInfo(b, i)
 				}
+			} else {
+				s.DecoderModelPresentForThisOp[i] = false
+			}
 
-				if s.InitialDisplayDelayPresent {
-					s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.InitialDisplayDelayPresent {
+				s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.InitialDisplayDelayPresentForThisOp[i] {
-						s.InitialDisplayDelayMinusOne[i] = b.F(4)
-					}
+				if s.InitialDisplayDelayPresentForThisOp[i] {
+					s.InitialDisplayDelayMinusOne[i] = b.F(4)
 				}
 			}
 		}
-- 
2.43.0


From 8725f9dcd253ac1b49308bd4b7da0d534dc3849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 013/189] fix: make room for every operating point of a
 sequence header

---
 internal/sequenceheader/sequence_header.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 371468d..1ca4151 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -137,6 +137,16 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
 		s.OperatingPointsCountMinusOne = b.F(5)
 
+		operatingPointIdcArray = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.SeqLevelIdx = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.SeqTier = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.DecoderModelPresentForThisOp = make([]bool, s.OperatingPointsCountMinusOne+1)
+		s.InitialDisplayDelayPresentForThisOp = make([]bool, s.OperatingPointsCountMinusOne+1)
+		s.InitialDisplayDelayMinusOne = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.DecoderBufferDelay = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.EncoderBufferDelay = make([]int, s.OperatingPointsCountMinusOne+1)
+		s.LowDelayModeFlag = make([]bool, s.OperatingPointsCountMinusOne+1)
+
 		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
 			operatingPointIdcArray[i] = b.F(12)
 			s.SeqLevelIdx[i] = b.F(5)
-- 
2.43.0


From 9fe8739aec0099da9a8bc0d6de2bc9993f815e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 014/189] fix: a reduced still picture header codes frame size
 and tool flags too

---
 internal/sequenceheader/sequence_header.go | 127 +++++++++++----------
 1 file changed, 64 insertions(+), 63 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 1ca4151..848e765 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -174,83 +174,84 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 				}
 			}
 		}
-		operatingPoint := chooseOperatingPoint()
-		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	}
+
+	operatingPoint := chooseOperatingPoint()
+	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+
+	s.FrameWidthBitsMinusOne = b.F(4)
+	s.FrameHeightBitsMinusOne = b.F(4)
 
-		s.FrameWidthBitsMinusOne = b.F(4)
-		s.FrameHeightBitsMinusOne = b.F(4)
+	n := s.FrameWidthBitsMinusOne + 1
+	s.MaxFrameWidthMinusOne = b.F(n)
 
-		n := s.FrameWidthBitsMinusOne + 1
-		s.MaxFrameWidthMinusOne = b.F(n)
+	n = s.FrameHeightBitsMinusOne + 1
+	s.MaxFrameHeightMinusOne = b.F(n)
 
-		n = s.FrameHeightBitsMinusOne + 1
-		s.MaxFrameHeightMinusOne = b.F(n)
+	s.FrameIdNumbersPresent = false
 
+	if s.ReducedStillPictureHeader {
 		s.FrameIdNumbersPresent = false
+	} else {
+		s.FrameIdNumbersPresent = b.F(1) != 0
+	}
 
-		if s.ReducedStillPictureHeader {
-			s.FrameIdNumbersPresent = false
-		} else {
-			s.FrameIdNumbersPresent = b.F(1) != 0
-		}
+	if s.FrameIdNumbersPresent {
+		s.DeltaFrameIdLengthMinusTwo = b.F(4)
+		s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	}
 
-		if s.FrameIdNumbersPresent {
-			s.DeltaFrameIdLengthMinusTwo = b.F(4)
-			s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	s.Use128x128SuperBlock = b.F(1) != 0
+	s.EnableFilterIntra = b.F(1) != 0
+	s.EnableIntraEdgeFilter = b.F(1) != 0
+	s.EnableInterIntraCompound = false
+	s.EnableMaskedCompound = false
+	s.EnableWarpedMotion = false
+	s.EnableDualFilter = false
+	s.EnableOrderHint = false
+	s.EnableJntComp = false
+	s.EnableRefFrameMvs = false
+
+	// SELECT_SCREEN_CONTENT_TOOLS
+	s.SeqForceScreenContentTools = 2
+
+	// SELECT_INTEGER_MV
+	s.SeqForceIntegerMv = 2
+
+	s.OrderHintBits = 0
+
+	if !s.ReducedStillPictureHeader {
+		s.EnableInterIntraCompound = b.F(1) != 0
+		s.EnableMaskedCompound = b.F(1) != 0
+		s.EnableWarpedMotion = b.F(1) != 0
+		s.EnableDualFilter = b.F(1) != 0
+		s.EnableOrderHint = b.F(1) != 0
+		if s.EnableOrderHint {
+			s.EnableJntComp = b.F(1) != 0
+			s.EnableRefFrameMvs = b.F(1) != 0
 		}
 
-		s.Use128x128SuperBlock = b.F(1) != 0
-		s.EnableFilterIntra = b.F(1) != 0
-		s.EnableIntraEdgeFilter = b.F(1) != 0
-		s.EnableInterIntraCompound = false
-		s.EnableMaskedCompound = false
-		s.EnableWarpedMotion = false
-		s.EnableDualFilter = false
-		s.EnableOrderHint = false
-		s.EnableJntComp = false
-		s.EnableRefFrameMvs = false
-
-		// SELECT_SCREEN_CONTENT_TOOLS
-		s.SeqForceScreenContentTools = 2
-
-		// SELECT_INTEGER_MV
-		s.SeqForceIntegerMv = 2
-
-		s.OrderHintBits = 0
-
-		if !s.ReducedStillPictureHeader {
-			s.EnableInterIntraCompound = b.F(1) != 0
-			s.EnableMaskedCompound = b.F(1) != 0
-			s.EnableWarpedMotion = b.F(1) != 0
-			s.EnableDualFilter = b.F(1) != 0
-			s.EnableOrderHint = b.F(1) != 0
-			if s.EnableOrderHint {
-				s.EnableJntComp = b.F(1) != 0
-				s.EnableRefFrameMvs = b.F(1) != 0
-			}
-
-			s.SeqChooseScreenContentTools = b.F(1) != 0
-			if s.SeqChooseScreenContentTools {
-				s.SeqForceScreenContentTools = 2
-			} else {
-				s.SeqForceScreenContentTools = b.F(1)
-			}
+		s.SeqChooseScreenContentTools = b.F(1) != 0
+		if s.SeqChooseScreenContentTools {
+			s.SeqForceScreenContentTools = 2
+		} else {
+			s.SeqForceScreenContentTools = b.F(1)
+		}
 
-			if s.SeqForceScreenContentTools > 0 {
-				seqChooseIntegerMv := b.F(1) != 0
+		if s.SeqForceScreenContentTools > 0 {
+			seqChooseIntegerMv := b.F(1) != 0
 
-				if seqChooseIntegerMv {
-					s.SeqForceIntegerMv = 2
-				} else {
-					s.SeqForceIntegerMv = b.F(1)
-				}
-			} else {
+			if seqChooseIntegerMv {
 				s.SeqForceIntegerMv = 2
+			} else {
+				s.SeqForceIntegerMv = b.F(1)
 			}
+		} else {
+			s.SeqForceIntegerMv = 2
+		}
 
-			if s.EnableOrderHint {
-				s.OrderHintBits = b.F(3) + 1
-			}
+		if s.EnableOrderHint {
+			s.OrderHintBits = b.F(3) + 1
 		}
 	}
 
-- 
2.43.0


From 2818a858bd359735dcaa539ea74b11c46120866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 015/189] fix: keep the operating point idcs in the sequence
 header

---
 internal/sequenceheader/sequence_header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 848e765..73228b8 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -178,6 +178,7 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 	operatingPoint := chooseOperatingPoint()
 	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	s.OperatingPointIdc = operatingPointIdcArray
 
 	s.FrameWidthBitsMinusOne = b.F(4)
 	s.FrameHeightBitsMinusOne = b.F(4)
-- 
2.43.0


From 421ea9cb4ad6f3583a04dce26f85892fe6e4ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 016/189] fix: record show_existing_frame in the frame header

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 067e316..bd19ee1 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -170,9 +170,9 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		u.ShowFrame = true
 		u.ShowableFrame = false
 	} else {
-		showExistingFrame := util.Bool(b.F(1))
+		u.ShowExistingFrame = util.Bool(b.F(1))
 
-		if showExistingFrame {
+		if u.ShowExistingFrame {
 			u.FrameToShowMapIdx = b.F(3)
 
 			if sh.DecoderModelInfoPresent && !sh.TimingInfo.EqualPictureInterval {
-- 
2.43.0


From 77c3c490ebf2484b8b083a99da8646c4ebb9d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 017/189] fix: a shown key frame resets the reference state,
 not local copies of it

---
 internal/uncompressedheader/uncompressed_header.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index bd19ee1..9b677fd 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -155,10 +155,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	var refValid [shared.NUM_REF_FRAMES]int
-	var refOrderHint [shared.NUM_REF_FRAMES]int
-	var orderHints [shared.REFS_PER_FRAME]int
-
 	bufferRemovalTime := []int{}
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
@@ -222,12 +218,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	if u.FrameType == 0 && u.ShowFrame {
 		for i := 0; i < shared.NUM_REF_FRAMES; i++ {
-			refValid[i] = 0
-			refOrderHint[i] = 0
+			s.RefValid[i] = 0
+			s.RefOrderHint[i] = 0
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			orderHints[shared.LAST_FRAME+1] = 0
+			u.OrderHints[shared.LAST_FRAME+i] = 0
 		}
 	}
 
-- 
2.43.0


From 0a4218ff11f841c00386dc61ebb4d4f2b0e0840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 018/189] fix: take allow_screen_content_tools from the
 sequence header when it is forced

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 9b677fd..154347c 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -232,7 +232,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	if sh.SeqForceScreenContentTools == 2 {
 		u.AllowScreenContentTools = b.F(1)
 	} else {
-		u.AllowScreenContentTools = 1
+		u.AllowScreenContentTools = sh.SeqForceScreenContentTools
 	}
 
 	if util.Bool(u.AllowScreenContentTools) {
-- 
2.43.0


From 987af65025f37a26135f72c1cbedeb406c08be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 019/189] fix: take force_integer_mv from the sequence header
 when it is forced

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 154347c..7ffdfff 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -239,7 +239,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		if sh.SeqForceIntegerMv == 2 {
 			u.ForceIntegerMv = util.Bool(b.F(1))
 		} else {
-			u.ForceIntegerMv = true
+			u.ForceIntegerMv = util.Bool(sh.SeqForceIntegerMv)
 		}
 	} else {
 		u.ForceIntegerMv = false
-- 
2.43.0


From 79dd201d5164d6891b9ed393e7e0c3de4d388924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 020/189] fix: keep frame ids from one frame header to the next

---
 internal/state/state.go                            | 2 ++
 internal/tilegroup/decode_frame_wrapup.go          | 1 +
 internal/uncompressedheader/uncompressed_header.go | 4 +++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bc3aaf0..47a2137 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -379,6 +379,8 @@ type State struct {
 	SavedCoeffBaseCdf    [][][][]int
 	SavedCoeffBrCdf      [][][][]int
 	RefValid             [shared.NUM_REF_FRAMES]int
+	CurrentFrameId       int
+	RefFrameId           [shared.NUM_REF_FRAMES]int
 
 	Memory [shared.NUM_REF_FRAMES]MemoryArea
 }
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3bff199..7bbd167 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -107,6 +107,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
 			state.RefValid[i] = 1
+			state.RefFrameId[i] = uh.CurrentFrameId
 			state.RefUpscaledWidth[i] = uh.UpscaledWidth
 			state.RefFrameWidth[i] = uh.FrameWidth
 			state.RefFrameHeight[i] = uh.FrameHeight
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 7ffdfff..a1d7ec9 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -250,8 +250,10 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	}
 
 	if sh.FrameIdNumbersPresent {
-		u.PrevFrameId = u.CurrentFrameId
+		u.PrevFrameId = s.CurrentFrameId
+		u.RefFrameId = append([]int{}, s.RefFrameId[:]...)
 		u.CurrentFrameId = b.F(idLen)
+		s.CurrentFrameId = u.CurrentFrameId
 		u.markRefFrames(idLen, s, sh)
 	} else {
 		u.CurrentFrameId = 0
-- 
2.43.0


From c5c12509aa965241647824437ecf170657b9e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 021/189] fix: make room for the buffer removal time of every
 operating point

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a1d7ec9..6748f76 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -155,7 +155,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	bufferRemovalTime := []int{}
+	bufferRemovalTime := make([]int, sh.OperatingPointsCountMinusOne+1)
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
 	if sh.ReducedStillPictureHeader {
-- 
2.43.0


From 7a5f914a17f235d91dd7deb89b97094a743c7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 022/189] fix: the spatial layer mask of an operating point
 starts at bit 8

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 6748f76..40c2472 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -285,7 +285,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				if sh.DecoderModelPresentForThisOp[opNum] {
 					opPtIdc := sh.OperatingPointIdc[opNum]
 					inTemporalLayer := ((opPtIdc >> h.ExtensionHeader.TemporalID) & 1) != 0
-					inSpatialLayer := ((opPtIdc >> h.ExtensionHeader.SpatialID) & 1) != 0
+					inSpatialLayer := ((opPtIdc >> (h.ExtensionHeader.SpatialID + 8)) & 1) != 0
 
 					if opPtIdc == 0 || (inTemporalLayer && inSpatialLayer) {
 						n := sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne + 1
-- 
2.43.0


From 4105b80f9a8aa9b8d203c832d6d276672c261548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 023/189] fix: only switch frames and shown key frames refresh
 every reference implicitly

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 40c2472..a4a6dc8 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -300,7 +300,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	u.UseRefFrameMvs = false
 
-	if u.FrameType == 3 || u.FrameType == 0 || u.ShowFrame {
+	if u.FrameType == 3 || u.FrameType == 0 && u.ShowFrame {
 		u.RefreshFrameFlags = allFrames
 	} else {
 		u.RefreshFrameFlags = b.F(8)
-- 
2.43.0


From 8d8f971ec4b70e2ce6bc02bf440d8e015291aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 024/189] fix: make room for the reference order hints

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a4a6dc8..a84ccc4 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -296,7 +296,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	ref_order_hint := []int{}
+	ref_order_hint := [shared.NUM_REF_FRAMES]int{}
 
 	u.UseRefFrameMvs = false
 
-- 
2.43.0


From 7e486388d11fd1d114c6b2c08f1d4cbb64b9824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 025/189] fix: make room for the expected frame ids

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a84ccc4..a9f8523 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -318,7 +318,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	expectedFrameId := []int{}
+	expectedFrameId := [shared.REFS_PER_FRAME]int{}
 
 	if u.FrameIsIntra {
 		u.frameSize(b, s, sh)
-- 
2.43.0


From 9f95ac85e5207d95d2d0ff43427949fbcd2675e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 026/189] fix: ref_frame_idx is coded once per reference

---
 internal/uncompressedheader/uncompressed_header.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a9f8523..74d8f39 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -344,7 +344,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
 			if !frameRefsShortSignaling {
 				u.RefFrameIdx[i] = b.F(3)
-				u.RefFrameIdx[i] = b.F(3)
 			}
 
 			if sh.FrameIdNumbersPresent {
-- 
2.43.0


From f2753d1f45a07c88b25f9f6dc37a7920069f6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 027/189] fix: derive the order hint and sign bias of every
 reference

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 74d8f39..662a241 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -136,7 +136,7 @@ type UncompressedHeader struct {
 	ClipToRestrictedRange bool
 	RefreshFrameFlags     int
 	FrameToShowMapIdx     int
-	RefFrameSignBias      [3]bool
+	RefFrameSignBias      [TOTAL_REFS_PER_FRAME]bool
 }
 
 func NewUncompressedHeader(h header.Header, sh sequenceheader.SequenceHeader, b *bitstream.BitStream, s *state.State) UncompressedHeader {
@@ -379,7 +379,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			refFrame := shared.LAST_FRAME + 1
+			refFrame := shared.LAST_FRAME + i
 			hint := s.RefOrderHint[u.RefFrameIdx[i]]
 			u.OrderHints[refFrame] = hint
 			if !sh.EnableOrderHint {
-- 
2.43.0


From 8937fce9ce3ca2d0e87708bb9e3c3a03362254c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 028/189] fix: relative distances depend on the
 enable_order_hint of the sequence header

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 662a241..d813d8d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -565,7 +565,7 @@ func (u *UncompressedHeader) readInterpolationFilter(b *bitstream.BitStream) {
 
 // get_relative_dist()
 func (u *UncompressedHeader) GetRelativeDist(a int, b int, sh sequenceheader.SequenceHeader) int {
-	if !u.EnableOrderHint {
+	if !sh.EnableOrderHint {
 		return 0
 	}
 
-- 
2.43.0


From 027e0480fdffaa3e139899c6224f30c89ddf4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 029/189] fix: the render height defaults to the frame height

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index d813d8d..d968e30 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -549,7 +549,7 @@ func (u *UncompressedHeader) renderSize(b *bitstream.BitStream) {
 		u.RenderHeight = renderHeightMinusOne + 1
 	} else {
 		u.RenderWidth = u.UpscaledWidth
-		u.RenderHeight = u.UpscaledHeight
+		u.RenderHeight = u.FrameHeight
 	}
 }
 
-- 
2.43.0


From 2a12a7d930963c2b3a4823cae03dc2c1a6959d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 030/189] fix: chroma planes use the chroma quantizer matrix
 levels

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index d968e30..068d60f 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -439,8 +439,8 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.SegQMLevel[2][segmentId] = 15
 			} else {
 				u.SegQMLevel[0][segmentId] = u.Qmy
-				u.SegQMLevel[1][segmentId] = u.Qmy
-				u.SegQMLevel[2][segmentId] = u.Qmy
+				u.SegQMLevel[1][segmentId] = u.Qmu
+				u.SegQMLevel[2][segmentId] = u.Qmv
 			}
 		}
 	}
-- 
2.43.0


From 67b487847a479a3651f85ad8cdbb85fd1cb9391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 031/189] fix: unsigned segmentation features have no sign bit

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 068d60f..a4e83be 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -725,7 +725,7 @@ func (u *UncompressedHeader) segmentationParams(b *bitstream.BitStream, s *state
 							featureValue = b.Su(1 + bitsToRead)
 							clippedValue = util.Clip3(-limit, limit, featureValue)
 						} else {
-							featureValue = b.Su(bitsToRead)
+							featureValue = b.F(bitsToRead)
 							clippedValue = util.Clip3(0, limit, featureValue)
 
 						}
-- 
2.43.0


From 8b01106f8514ed5c37d8cf48027f7b5d534b0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 032/189] fix: the loop filter is off in both directions for
 lossless and intra block copy frames

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a4e83be..93e8e48 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -827,7 +827,7 @@ func (u *UncompressedHeader) segFeatureActiveIdx(idx int, feature int, s *state.
 func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
 	if u.CodedLossless || u.AllowIntraBc {
 		u.LoopFilterLevel[0] = 0
-		u.LoopFilterLevel[1] = 1
+		u.LoopFilterLevel[1] = 0
 		u.LoopFilterRefDeltas[shared.INTRA_FRAME] = 1
 		u.LoopFilterRefDeltas[shared.LAST_FRAME] = 0
 		u.LoopFilterRefDeltas[shared.LAST2_FRAME] = 0
-- 
2.43.0


From 1dc6e23ef2fe622ea6d21365da464cacbd5ec395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 033/189] fix: loop_filter_sharpness is a 3 bit field

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 93e8e48..f9a16db 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -853,7 +853,7 @@ func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenc
 		}
 	}
 
-	u.LoopFilterSharpness = b.F(6)
+	u.LoopFilterSharpness = b.F(3)
 	u.LoopFilterDeltaEnabled = util.Bool(b.F(1))
 
 	if u.LoopFilterDeltaEnabled {
-- 
2.43.0


From b6847ae5c025c00002eed711bb45440a03988f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 034/189] fix: skip mode needs compound references and order
 hints

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index f9a16db..c2d3797 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -999,7 +999,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
-	if u.FrameIsIntra || u.ReferenceSelect || u.EnableOrderHint {
+	if u.FrameIsIntra || !u.ReferenceSelect || !sh.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
 		forwardIdx := -1
-- 
2.43.0


From 5b13e649b61454fd091aebb4e0f830b201c088dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 035/189] fix: skip mode picks the nearest backward reference

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index c2d3797..06add48 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1014,7 +1014,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 					forwardHint = refHint
 				}
 			} else if u.GetRelativeDist(refHint, u.OrderHint, sh) > 0 {
-				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) > 0 {
+				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) < 0 {
 					backwardIdx = i
 					backwardHint = refHint
 				}
-- 
2.43.0


From e87a7b4e71b1528ff1b3828ae98bdc6496730c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 036/189] fix: make room for the two skip mode references

---
 internal/uncompressedheader/uncompressed_header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 06add48..71402ae 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -999,6 +999,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
+	u.SkipModeFrame = make([]int, 2)
 	if u.FrameIsIntra || !u.ReferenceSelect || !sh.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
-- 
2.43.0


From a5c5ef60330353253cc877954c945e8739e05a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 037/189] fix: global motion parameters are signed

---
 internal/uncompressedheader/uncompressed_header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 71402ae..acf3d28 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1136,6 +1136,11 @@ func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitst
 }
 
 func (u *UncompressedHeader) decodeSignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
+	x := u.decodeUnsignedSubexpWithRef(2*mx+1, r+mx, b)
+	return x - mx
+}
+
+func (u *UncompressedHeader) decodeUnsignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
 	v := u.decodeSubexp(mx, b)
 	if (r << 1) <= mx {
 		return util.InverseRecenter(r, v)
-- 
2.43.0


From 1d5a15ba2f568ce3699cb29c09f814b41b07eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 038/189] fix: read the global motion parameters

---
 .../uncompressedheader/uncompressed_header.go   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index acf3d28..fcc3378 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1096,6 +1096,23 @@ func (u *UncompressedHeader) globalMotionParams(b *bitstream.BitStream, s *state
 			typ = shared.IDENTITY
 		}
 		s.GmType[ref] = typ
+
+		if typ >= shared.ROTZOOM {
+			u.readGlobalParam(typ, ref, 2, b, s)
+			u.readGlobalParam(typ, ref, 3, b, s)
+			if typ == shared.AFFINE {
+				u.readGlobalParam(typ, ref, 4, b, s)
+				u.readGlobalParam(typ, ref, 5, b, s)
+			} else {
+				u.GmParams[ref][4] = -u.GmParams[ref][3]
+				u.GmParams[ref][5] = u.GmParams[ref][2]
+			}
+		}
+
+		if typ >= shared.TRANSLATION {
+			u.readGlobalParam(typ, ref, 0, b, s)
+			u.readGlobalParam(typ, ref, 1, b, s)
+		}
 	}
 
 }
-- 
2.43.0


From d9062455c50a5738b7b24135c867d8ece17ff389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 039/189] fix: default skip mode CDFs

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e4e5d9..a816f48 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1290,11 +1290,11 @@ var DEFAULT_SKIP_CDF = [][]int{
 }
 
 var DEFAULT_SKIP_MODE_CDF = [][]int{
-	{3262132621,
+	{32621,
 		32768, 00},
-	{2070820708,
+	{20708,
 		32768, 00},
-	{81278127,
+	{8127,
 		32768, 00},
 }
 
-- 
2.43.0


From a9da5cd284db1f2e7903484d4aeb26c30b03b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 040/189] fix: default segment id prediction CDFs end at 32768

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index a816f48..d8b7765 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1585,9 +1585,9 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 }
 
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
 }
 
 var DEFAULT_SEGMENT_ID_CDF = [][]int{
-- 
2.43.0


From 50e82ce969cfcf30e9f367977c959f5e7dab9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 041/189] fix: default chroma palette color CDFs for 5 colors

---
 internal/uncompressedheader/cdf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index d8b7765..9b82ce7 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -919,15 +919,15 @@ var DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF = [][]int{
 
 var DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF = [][]int{
 	{
-		24779, 26955, 28576, 30282, 32768, 0},
+		22980, 25479, 27781, 29986, 32768, 0},
 	{
-		8669, 20364, 24073, 28093, 32768, 0},
+		8413, 21408, 24859, 28874, 32768, 0},
 	{
-		4255, 27565, 29377, 31067, 32768, 0},
+		2257, 29449, 30594, 31598, 32768, 0},
 	{
-		19864, 23674, 26716, 29530, 32768, 0},
+		19189, 21202, 25915, 28620, 32768, 0},
 	{
-		31646, 31893, 32147, 32426, 32768, 0},
+		31844, 32044, 32281, 32518, 32768, 0},
 }
 
 var DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF = [][]int{
-- 
2.43.0


From 9ce9e9a70e5819d09303fc31841a41aa2fcce1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 042/189] fix: initialise the ref_mv CDFs

---
 internal/uncompressedheader/cdf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 9b82ce7..6abf9cb 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -30,6 +30,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.MotionModeCdf = DEFAULT_MOTION_MODE_CDF
 	state.NewMvCdf = DEFAULT_NEW_MV_CDF
 	state.ZeroMvCdf = DFEAULT_ZERO_MV_CDF
+	state.RefMvCdf = DEFAULT_REF_MV_CDF
 	state.CompoundModeCdf = DEFAULT_COMPOUND_MODE_CDF
 	state.DrlModeCdf = DEFAULT_DRL_MODE_CDF
 	state.IsInterCdf = DEFAULT_IS_INTER_CDF
@@ -1350,6 +1351,15 @@ var DEFAULT_COMPOUND_MODE_CDF = [][]int{
 		13046, 23214, 24505, 25942, 27435, 28442, 29330, 32768, 0},
 }
 
+var DEFAULT_REF_MV_CDF = [][]int{
+	{23974, 32768, 0},
+	{24188, 32768, 0},
+	{17848, 32768, 0},
+	{28622, 32768, 0},
+	{24312, 32768, 0},
+	{19923, 32768, 0},
+}
+
 var DFEAULT_ZERO_MV_CDF = [][]int{
 	{2175, 32768, 0},
 	{1054, 32768, 0},
-- 
2.43.0


From 4f978f752dbaf4a3012aa60093c3a49bb7201176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 043/189] fix: make room for every cdef index of a superblock

---
 internal/cdef/cdef.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index 7d7ec02..e161163 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -6,12 +6,21 @@ type Cdef struct {
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
-	for cap(cdef.CdefIdx) < r+1 {
+	lastRow := r
+	lastCol := c
+	if Use128x128SuperBlock {
+		lastRow += cdefSize4
+		lastCol += cdefSize4
+	}
+
+	for len(cdef.CdefIdx) < lastRow+1 {
 		cdef.CdefIdx = append(cdef.CdefIdx, make([]int, 0))
 	}
 
-	for cap(cdef.CdefIdx[r]) < c+1 {
-		cdef.CdefIdx[r] = append(cdef.CdefIdx[r], 0)
+	for row := r; row <= lastRow; row++ {
+		for len(cdef.CdefIdx[row]) < lastCol+1 {
+			cdef.CdefIdx[row] = append(cdef.CdefIdx[row], 0)
+		}
 	}
 
 	cdef.CdefIdx[r][c] = -1
-- 
2.43.0


From d87e800ebeed6e11c57a9f02f6b580cf8054bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 044/189] fix: cdef indices are kept per 64x64 block

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 45669ac..a4daeba 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -758,7 +758,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
-			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
+			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
 			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
-- 
2.43.0


From 61ab4fc435ca4c961609274ccda083ab823b5e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 045/189] fix: allocate the wedge masks

---
 internal/wedgemask/wedge_mask.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 05e3c54..4a4314e 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -72,13 +72,13 @@ var Wedge_Codebook = [][][]int{
 	},
 }
 
-var WedgeMasks = [][][][][]int{}
+var WedgeMasks = [shared.BLOCK_SIZES][2][WEDGE_TYPES][][]int{}
 
 func InitialiseWedgeMaskTable(state *state.State) {
 	w := MASK_MASTER_SIZE
 	h := MASK_MASTER_SIZE
 
-	var MasterMask [][][]int
+	MasterMask := [WEDGE_OBLIQUE153 + 1][MASK_MASTER_SIZE][MASK_MASTER_SIZE]int{}
 	for j := 0; j < w; j++ {
 		shift := MASK_MASTER_SIZE / 4
 		for i := 0; i < h; i += 2 {
@@ -118,7 +118,11 @@ func InitialiseWedgeMaskTable(state *state.State) {
 				}
 				avg := (sum + (w+h-1)/2) / (w + h - 1)
 				flipSign := avg < 32
+				WedgeMasks[bsize][0][wedge] = make([][]int, h)
+				WedgeMasks[bsize][1][wedge] = make([][]int, h)
 				for i := 0; i < h; i++ {
+					WedgeMasks[bsize][0][wedge][i] = make([]int, w)
+					WedgeMasks[bsize][1][wedge][i] = make([]int, w)
 					for j := 0; j < w; j++ {
 						WedgeMasks[bsize][util.Int(flipSign)][wedge][i][j] = MasterMask[dir][yoff+i][xoff+j]
 						WedgeMasks[bsize][util.Int(!flipSign)][wedge][i][j] = 64 - MasterMask[dir][yoff+i][xoff+j]
-- 
2.43.0


From 4d84afe2c72b8a0f4051a0b3c36576c6505f2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 046/189] fix: size wedge masks by the block size

---
 internal/wedgemask/wedge_mask.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 4a4314e..e57d50b 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -102,8 +102,8 @@ func InitialiseWedgeMaskTable(state *state.State) {
 
 	for bsize := shared.BLOCK_8X8; bsize < shared.BLOCK_SIZES; bsize++ {
 		if Wedge_Bits[bsize] > 0 {
-			w := state.BlockWidth[bsize]
-			h := state.BlockHeight[bsize]
+			w := shared.BLOCK_WIDTH[bsize]
+			h := shared.BLOCK_HEIGHT[bsize]
 
 			for wedge := 0; wedge < WEDGE_TYPES; wedge++ {
 				dir := getWedgeDirection(bsize, wedge, state)
-- 
2.43.0


From 77de8ffb97aa4a64f16554f2af430ce9349f729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 047/189] fix: count the corner of a wedge mask once

---
 internal/wedgemask/wedge_mask.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index e57d50b..0e19571 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -113,7 +113,7 @@ func InitialiseWedgeMaskTable(state *state.State) {
 				for i := 0; i < w; i++ {
 					sum += MasterMask[dir][yoff][xoff+i]
 				}
-				for i := 0; i < h; i++ {
+				for i := 1; i < h; i++ {
 					sum += MasterMask[dir][yoff+i][xoff]
 				}
 				avg := (sum + (w+h-1)/2) / (w + h - 1)
-- 
2.43.0


From 637a2202d87f027d6907c193da8aafc1b8fbb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 048/189] fix: padding ends with its OBU

---
 internal/obu/obu.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d044376..2a0ef44 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -134,10 +134,8 @@ func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
 
 // padding_obu( )
 func (o *Obu) paddingObu(b *bitstream.BitStream) {
-	obuPaddingByte := 1
-	for obuPaddingByte != 0 {
-		obuPaddingByte = b.F(8)
+	for i := 0; i < o.Size-1; i++ {
+		// obu_padding_byte
+		b.F(8)
 	}
-
-	b.Position -= 8
 }
-- 
2.43.0


From 77ac1bbb2d438a1e10d43c1e8684f10c03a1bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 049/189] fix: keep the decoder state from one frame unit to
 the next

---
 internal/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 0d9035c..7b91e21 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -16,6 +16,7 @@ type Parser struct {
 	SequenceHeader     sequenceheader.SequenceHeader
 	UncompressedHeader uncompressedheader.UncompressedHeader
 	obus               []obu.Obu
+	state              state.State
 }
 
 func NewParser(b *bitstream.BitStream) Parser {
@@ -38,14 +39,13 @@ func (p *Parser) temporalUnit(sz int) {
 
 // frame_unit( sz )
 func (p *Parser) frameUnit(sz int) {
-	state := state.State{}
 	for sz > 0 {
 		obuLength := p.bitStream.Leb128()
 		sz -= p.bitStream.Leb128Bytes
 
 		logger.Logger.Info("Starting obu parsing process...", zap.Int("sz", sz))
 
-		o := obu.NewObu(obuLength, &state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
+		o := obu.NewObu(obuLength, &p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
 		p.obus = append(p.obus, o)
 
 		switch o.Header.Type {
-- 
2.43.0


From 5d7cd601ff50cfad2959cc6a568e99162cec78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 050/189] fix: keep the frame header of a frame OBU

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 7b91e21..007d5b6 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -51,7 +51,7 @@ func (p *Parser) frameUnit(sz int) {
 		switch o.Header.Type {
 		case header.OBU_SEQUENCE_HEADER:
 			p.SequenceHeader = o.SequenceHeader
-		case header.OBU_FRAME_HEADER:
+		case header.OBU_FRAME_HEADER, header.OBU_FRAME:
 			p.UncompressedHeader = o.UncompressedHeader
 		}
 
-- 
2.43.0


From 2a88a04770e4e87b6b6275f756a027af359296d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 051/189] fix: carry the adapted comp_ref_type CDFs over

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index a4daeba..dc3c444 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -439,7 +439,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.InterTxTypeSet3Cdf = state.SavedInterTxTypeSet3Cdf
 	state.UseObmcCdf = state.SavedUseObmcCdf
 	state.InterIntraCdf = state.SavedInterIntraCdf
-	state.CompRefTypeCdf = state.CompRefTypeCdf
+	state.CompRefTypeCdf = state.SavedCompRefTypeCdf
 	state.CflSignCdf = state.SavedCflSignCdf
 	state.UniCompRefCdf = state.SavedUniCompRefCdf
 	state.WedgeInterIntraCdf = state.SavedWedgeInterIntraCdf
@@ -658,7 +658,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedInterTxTypeSet3Cdf = state.TileInterTxTypeSet3Cdf
 		state.SavedUseObmcCdf = state.TileUseObmcCdf
 		state.SavedInterIntraCdf = state.TileInterIntraCdf
-		state.SavedCompRefTypeCdf = state.CompRefTypeCdf
+		state.SavedCompRefTypeCdf = state.TileCompRefTypeCdf
 		state.SavedCflSignCdf = state.TileCflSignCdf
 		state.SavedUniCompRefCdf = state.TileUniCompRefCdf
 		state.SavedWedgeInterIntraCdf = state.TileWedgeInterIntraCdf
-- 
2.43.0


From a3b4990ccfe740b12fdebc20ea8488be1babbbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 052/189] fix: adapt copies of the CDFs, not the defaults and
 the saved ones

---
 internal/state/state.go          | 32 ++++++++++++++++++++++++++++++++
 internal/tilegroup/tile_group.go |  2 ++
 2 files changed, 34 insertions(+)

diff --git a/internal/state/state.go b/internal/state/state.go
index 47a2137..bd96276 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -1,6 +1,9 @@
 package state
 
 import (
+	"reflect"
+	"strings"
+
 	"github.com/m4tthewde/gov1/internal/cdef"
 	"github.com/m4tthewde/gov1/internal/shared"
 )
@@ -385,6 +388,35 @@ type State struct {
 	Memory [shared.NUM_REF_FRAMES]MemoryArea
 }
 
+// CopyTileCdfs gives the tile CDFs memory of their own, so that adapting them leaves every other CDF alone.
+func (s *State) CopyTileCdfs() {
+	v := reflect.ValueOf(s).Elem()
+	for i := 0; i < v.NumField(); i++ {
+		name := v.Type().Field(i).Name
+		if strings.HasPrefix(name, "Tile") && strings.HasSuffix(name, "Cdf") {
+			v.Field(i).Set(copyCdf(v.Field(i)))
+		}
+	}
+}
+
+func copyCdf(src reflect.Value) reflect.Value {
+	dst := src
+	switch src.Kind() {
+	case reflect.Slice:
+		dst = reflect.MakeSlice(src.Type(), src.Len(), src.Len())
+	case reflect.Array:
+		dst = reflect.New(src.Type()).Elem()
+	default:
+		return src
+	}
+
+	for i := 0; i < src.Len(); i++ {
+		dst.Index(i).Set(copyCdf(src.Index(i)))
+	}
+
+	return dst
+}
+
 type MemoryArea struct {
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index dc3c444..162c920 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -576,6 +576,8 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TileCoeffBaseEobCdf = state.CoeffBaseEobCdf
 	state.TileCoeffBaseCdf = state.CoeffBaseCdf
 	state.TileCoeffBrCdf = state.CoeffBrCdf
+
+	state.CopyTileCdfs()
 }
 
 // 8.2.4 Exit process for symbol decoder
-- 
2.43.0


From 02e2ddc24fbaa0efbf60fd1ac05d293a1c730546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 053/189] fix: keep the segment's offset when the quantizer
 varies by block

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index fcc3378..e962c83 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -804,7 +804,7 @@ func (u *UncompressedHeader) GetQIndex(ignoreDeltaQ int, segmentId int, s *state
 		qindex := u.BaseQIdx + data
 
 		if ignoreDeltaQ == 0 && u.DeltaQPresent {
-			qindex = s.CurrentQIndex
+			qindex = s.CurrentQIndex + data
 		}
 
 		return util.Clip3(0, 255, qindex)
-- 
2.43.0


From c1224cf14e1acee306f2eb2146cc1dd0c23c2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 054/189] fix: take AC quantizers from the AC table

---
 internal/tilegroup/reconstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index b50e99e..237cf44 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -127,7 +127,7 @@ func (t *TileGroup) getAcQuant(plane int, sh sequenceheader.SequenceHeader, uh u
 }
 
 func acQ(b int, sh sequenceheader.SequenceHeader) int {
-	return Dc_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
+	return Ac_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
 }
 
 var Dc_Qlookup = [][]int{
-- 
2.43.0


From c636872587ac2110b11922a8e7305dcdfabedf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 055/189] fix: sign in the butterfly rotation

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3b7452f..afcacf4 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -113,7 +113,7 @@ func (t *TileGroup) b(a int, b int, angle int, flag int, r int) {
 		return
 	}
 	x := t.T[a]*util.Cos128(angle) - t.T[b]*util.Sin128(angle)
-	y := t.T[a]*util.Sin128(angle) - t.T[b]*util.Cos128(angle)
+	y := t.T[a]*util.Sin128(angle) + t.T[b]*util.Cos128(angle)
 	t.T[a] = util.Round2(x, 12)
 	t.T[b] = util.Round2(y, 12)
 }
-- 
2.43.0


From 04db0de336816afe1b6683a00434ebfdfb23aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 056/189] fix: 4-point inverse ADST

---
 internal/tilegroup/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index afcacf4..3d0942f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -382,8 +382,8 @@ const SINPI_4_9 = 3803
 // 7.13.2.6 Inverse ADST4 process
 func (t *TileGroup) inverseADST4(r int) {
 	// TODO: bistream conformance precision ???
-	s := []int{}
-	x := []int{}
+	var s [7]int
+	var x [4]int
 
 	s[0] = SINPI_1_9 * t.T[0]
 	s[1] = SINPI_2_9 * t.T[0]
-- 
2.43.0


From 83b69610d484fe1f41b8b3f4173e2aa0529f964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 057/189] fix: output order of the 8-point inverse ADST

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3d0942f..9a6c46e 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -436,7 +436,7 @@ func (t *TileGroup) inverseADST8(r int) {
 		t.b(2+4*i, 3+4*i, 32, 1, r)
 	}
 
-	t.inverseADSTOutputArrayPermutation(4)
+	t.inverseADSTOutputArrayPermutation(3)
 }
 
 // 7.13.2.8 Inverse ADST16 process
-- 
2.43.0


From 1d34f92e16b3495fda8d542c5ca4220add7ae5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 058/189] fix: transform the columns of the block

---
 internal/tilegroup/transform.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 9a6c46e..95fee0f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -78,6 +78,10 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 	}
 
 	for j := 0; j < w; j++ {
+		for i := 0; i < h; i++ {
+			t.T[i] = t.Residual[i][j]
+		}
+
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(0)
 		} else if t.PlaneTxType == DCT_DCT ||
@@ -99,7 +103,7 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		}
 
 		for i := 0; i < h; i++ {
-			t.Residual[i][j] = util.Round2(t.T[j], colShift)
+			t.Residual[i][j] = util.Round2(t.T[i], colShift)
 		}
 	}
 }
-- 
2.43.0


From 4d54735e577f18815f45782bfadfb142401effdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 059/189] fix: give the inverse transforms their working
 storage

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 162c920..43c9247 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -250,8 +250,8 @@ type TileGroup struct {
 	TxType            int
 	PlaneTxType       int
 	TxTypes           [2][2]int
-	T                 []int
-	Residual          [][]int
+	T                 [64]int
+	Residual          [64][64]int
 	LoopFilterTxSizes [3][2][2]int
 
 	NewMvContext  int
-- 
2.43.0


From 956d3ace1ae59340fabf933526b783e1a414bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 060/189] fix: return the end of block position that was read

---
 internal/tilegroup/coeffs.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 8c9d7ad..6603d43 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -87,7 +87,6 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 			eobPt = eob_pt_1024 + 1
 		}
 
-		var eob int
 		if eobPt < 2 {
 			eob = eobPt
 		} else {
-- 
2.43.0


From de195f7a074eb6d0099572a12d9f72164e9b7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 061/189] fix: read a sign bit for every AC coefficient

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 6603d43..a4da794 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -143,7 +143,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					dcSign := t.readDcSignSymbol(plane, w4, h4, x4, y4, ptype, state, b, uh, sh)
 					sign = dcSign
 				} else {
-					signBit := literal.L(0, state, b, uh)
+					signBit := literal.L(1, state, b, uh)
 					sign = signBit
 				}
 			} else {
-- 
2.43.0


From 95fb62bc6e22ca6c9391f43b43b9056764108459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 062/189] fix: keep 20 bits of a coefficient

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index a4da794..490cd95 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -175,7 +175,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 				}
 			}
 
-			t.Quant[pos] = t.Quant[pos] & 0xFFFF
+			t.Quant[pos] = t.Quant[pos] & 0xFFFFF
 			culLevel += t.Quant[pos]
 			if util.Bool(sign) {
 				t.Quant[pos] = -t.Quant[pos]
-- 
2.43.0


From 4d0424d65e5fd860385f4b07396bd484e8b66578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 063/189] fix: scan of 64x16 transforms

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 490cd95..123bf75 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -500,7 +500,7 @@ func (t *TileGroup) getScan(txSz int) []int {
 	}
 
 	if txSz == TX_64X16 {
-		return Default_Scan_16x32
+		return Default_Scan_32x16
 	}
 
 	if TX_SIZE_SQR_UP[txSz] == TX_64X64 {
-- 
2.43.0


From b6dc700e2c94c46a68ea31014a4134b943e8eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 064/189] fix: room for the transform types of a frame

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 43c9247..6ef67d3 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -249,7 +249,7 @@ type TileGroup struct {
 	Dequant           [64][64]int
 	TxType            int
 	PlaneTxType       int
-	TxTypes           [2][2]int
+	TxTypes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	T                 [64]int
 	Residual          [64][64]int
 	LoopFilterTxSizes [3][2][2]int
-- 
2.43.0


From 772f02ed206784a9f86965ea9b17943987ccad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 065/189] fix: give the contexts of a tile room for every block

---
 internal/tilegroup/tile_group.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 6ef67d3..a79440f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -694,11 +694,11 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveLevelContext = make([][]int, 3)
 	t.AboveDcContext = make([][]int, 3)
-	t.AboveSegPredContext = make([]int, 3)
+	t.AboveSegPredContext = make([]int, state.MiCols+shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128])
 
 	for i := 0; i < 3; i++ {
-		t.AboveLevelContext[i] = make([]int, state.MiCols)
-		t.AboveDcContext[i] = make([]int, state.MiCols)
+		t.AboveLevelContext[i] = make([]int, state.MiCols+shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128])
+		t.AboveDcContext[i] = make([]int, state.MiCols+shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128])
 	}
 
 	for i := 0; i < state.MiCols; i++ {
@@ -714,11 +714,11 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftLevelContext = make([][]int, 3)
 	t.LeftDcContext = [3][]int{}
-	t.LeftSegPredContext = make([]int, 3)
+	t.LeftSegPredContext = make([]int, state.MiRows+shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128])
 
 	for i := 0; i < 3; i++ {
-		t.LeftLevelContext[i] = make([]int, state.MiRows)
-		t.LeftDcContext[i] = make([]int, state.MiRows)
+		t.LeftLevelContext[i] = make([]int, state.MiRows+shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128])
+		t.LeftDcContext[i] = make([]int, state.MiRows+shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128])
 	}
 
 	for i := 0; i < state.MiRows; i++ {
-- 
2.43.0


From e978c942b6f40f2a77669e633ed2f25b221dd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 066/189] fix: one set of distributions too many among the
 default base levels

---
 internal/uncompressedheader/cdf.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 6abf9cb..288d7f6 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -10707,16 +10707,6 @@ var DEFAULT_COEFF_BASE_CDF = [][][][][]int{
 				{
 					8192, 16384, 24576, 32768, 0},
 			},
-			{
-				{
-					9320, 22102, 27840, 32768, 0},
-				{
-					2795, 10410, 17361, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-			},
 			{
 				{
 					9320, 22102, 27840, 32768, 0},
-- 
2.43.0


From 0fa826532f6eb014fd818f0e5ff787b5e5f2b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 067/189] fix: default displacement of block copies

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 886240e..d9d12b1 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -39,7 +39,7 @@ func (t *TileGroup) assignMv(isCompound int, b *bitstream.BitStream, state *stat
 					t.PredMv[0][1] = -(sbSize4*MI_SIZE + INTRABC_DELAY_PIXELS) * 8
 				} else {
 					t.PredMv[0][0] = -(sbSize4 * MI_SIZE * 8)
-					t.PredMv[0][0] = 1
+					t.PredMv[0][1] = 0
 				}
 			}
 
-- 
2.43.0


From c000d58bee30e47b9550fe658861270c8f53cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 068/189] fix: order of the bits of a motion vector difference

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index d9d12b1..fdc4fb0 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -122,7 +122,7 @@ func (t *TileGroup) readMvComponent(comp int, b *bitstream.BitStream, uh uncompr
 		d := 0
 		for i := 0; i < mvClass; i++ {
 			mvBit := symbol.ReadSymbol(state.TileMvBitCdf[t.MvCtx][comp][i], state, b, uh)
-			d |= mvBit << 1
+			d |= mvBit << i
 		}
 
 		mag = CLASS0_SIZE << (mvClass + 2)
-- 
2.43.0


From 2fb3c850e5253917ca460e347ce18cd19684d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 069/189] fix: mode of the second vector of nearest compound
 modes

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index fdc4fb0..aff5429 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -170,7 +170,7 @@ func (t *TileGroup) getMode(refList int) int {
 		if t.YMode == shared.NEW_NEWMV || t.YMode == shared.NEAREST_NEWMV || t.YMode == shared.NEAR_NEWMV {
 			compMode = shared.NEWMV
 		} else if t.YMode == shared.NEAREST_NEARESTMV || t.YMode == shared.NEW_NEARESTMV {
-			compMode = shared.NEARMV
+			compMode = shared.NEARESTMV
 		} else if t.YMode == shared.NEAR_NEARMV || t.YMode == shared.NEW_NEARMV {
 			compMode = shared.NEARMV
 		} else {
-- 
2.43.0


From 69c57656f8597e4c04b497dff76087661c16a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 070/189] fix: room for the motion vector candidates

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index a79440f..85bef40 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -154,7 +154,7 @@ type TileGroup struct {
 	FoundMatch          int
 	TotalMatches        int
 	CloseMatches        int
-	RefStackMv          [2][2][2]int
+	RefStackMv          [MAX_REF_MV_STACK_SIZE][2][2]int
 	RefIdCount          [2]int
 	RefIdMvs            [][][2]int
 	RefDiffCount        [2]int
-- 
2.43.0


From 78f657ce0984fd5ea60b34b0d1dbade40970a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 071/189] fix: weight of the last of the nearest motion vector
 candidates

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 5e67198..25585d3 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -68,7 +68,7 @@ func (t *TileGroup) findMvStack(isCompound bool, state *state.State, uh uncompre
 
 	// 15.
 	if numNearest > 0 {
-		for idx := 0; idx < numNearest-1; idx++ {
+		for idx := 0; idx < numNearest; idx++ {
 			t.WeightStack[idx] += REF_CAT_LEVEL
 		}
 	}
-- 
2.43.0


From de9ce713c6abafcd64fd3161067771ae8fa322ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 072/189] fix: a match five columns to the left is not one
 above

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 25585d3..6e00320 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -134,7 +134,7 @@ func (t *TileGroup) findMvStack(isCompound bool, state *state.State, uh uncompre
 
 	// 31.
 	if t.FoundMatch == 1 {
-		foundAboveMatch = 1
+		foundLeftMatch = 1
 	}
 
 	// 32.
-- 
2.43.0


From 8c6839ad3f607f71e7b481332783641e52e0dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 073/189] fix: precision of temporal and compound motion vector
 candidates

---
 internal/tilegroup/find_mv_stack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 6e00320..87f4b8b 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -322,7 +322,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 			return
 		}
 
-		t.lowerPrecisionProcess(candMv, uh)
+		candMv = t.lowerPrecisionProcess(candMv, uh)
 
 		if deltaRow == 0 && deltaCol == 0 {
 			if util.Abs(candMv[0]-t.GlobalMvs[0][0]) >= 16 ||
@@ -356,8 +356,8 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 		if candMv1[0] == -1<<15 {
 			return
 		}
-		t.lowerPrecisionProcess(candMv0, uh)
-		t.lowerPrecisionProcess(candMv1, uh)
+		candMv0 = t.lowerPrecisionProcess(candMv0, uh)
+		candMv1 = t.lowerPrecisionProcess(candMv1, uh)
 
 		if deltaRow == 0 && deltaCol == 0 {
 			if util.Abs(candMv0[0]-t.GlobalMvs[0][0]) >= 16 ||
@@ -460,7 +460,7 @@ func (t *TileGroup) compoundSearchStackProcess(mvRow int, mvCol int, weight int,
 	}
 
 	for i := 0; i <= 1; i++ {
-		t.lowerPrecisionProcess(candMvs[i], uh)
+		candMvs[i] = t.lowerPrecisionProcess(candMvs[i], uh)
 	}
 
 	t.FoundMatch = 1
-- 
2.43.0


From edb342e997c69d550e49353de1b3f91c68863115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 074/189] fix: search for equal temporal motion vector
 candidates

---
 internal/tilegroup/find_mv_stack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 87f4b8b..6c83c5a 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -334,7 +334,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 		}
 
 		var idx int
-		for idx := 0; idx < t.NumMvFound; idx++ {
+		for idx = 0; idx < t.NumMvFound; idx++ {
 			if candMv[0] == t.RefStackMv[idx][0][0] &&
 				candMv[1] == t.RefStackMv[idx][0][1] {
 				break
@@ -371,7 +371,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 
 		}
 		var idx int
-		for idx := 0; idx < t.NumMvFound; idx++ {
+		for idx = 0; idx < t.NumMvFound; idx++ {
 			if candMv0[0] == t.RefStackMv[idx][0][0] &&
 				candMv0[1] == t.RefStackMv[idx][0][1] &&
 				candMv1[0] == t.RefStackMv[idx][1][0] &&
-- 
2.43.0


From 9457bdb0a1e73f16b9274b7df40ab7fad8e031cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 075/189] fix: search for equal extra motion vector candidates

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 6c83c5a..a47d7aa 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -678,7 +678,7 @@ func (t *TileGroup) addExtraMvCandidateProcess(mvRow int, mvCol int, isCompound
 					candMv[1] *= -1
 				}
 				var idx int
-				for idx := 0; idx < t.NumMvFound; idx++ {
+				for idx = 0; idx < t.NumMvFound; idx++ {
 					if util.Equals(candMv, t.RefStackMv[idx][0]) {
 						break
 					}
-- 
2.43.0


From 0d41b5afbe69fa1eacda8730d48fdcc1a8675108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:15 +0000
Subject: [PATCH 076/189] fix: temporal motion vector candidates around the
 block

---
 internal/tilegroup/find_mv_stack.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index a47d7aa..7e38fa4 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -298,6 +298,25 @@ func (t *TileGroup) temporalScanProcess(isCompound bool, state *state.State, uh
 		}
 	}
 
+	if bh4 >= shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_8X8] && bh4 < shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_64X64] &&
+		bw4 >= shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_8X8] && bw4 < shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64] {
+		tplSamplePos := [3][2]int{{bh4, -2}, {bh4, bw4}, {bh4 - 2, bw4}}
+		for i := 0; i < 3; i++ {
+			deltaRow := tplSamplePos[i][0]
+			deltaCol := tplSamplePos[i][1]
+			if checkSbBorder(deltaRow, deltaCol, state) {
+				t.temporalSampleProcess(deltaRow, deltaCol, isCompound, state, uh)
+			}
+		}
+	}
+}
+
+// check_sb_border( deltaRow, deltaCol )
+func checkSbBorder(deltaRow int, deltaCol int, state *state.State) bool {
+	row := (state.MiRow & 15) + deltaRow
+	col := (state.MiCol & 15) + deltaCol
+
+	return row >= 0 && row < 16 && col >= 0 && col < 16
 }
 
 // 7.10.2.6 Temporal sample process
-- 
2.43.0


From 0c87e0a298479fac059b84bcc7467d3f377278de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 077/189] fix: equal compound motion vector candidates share an
 entry

---
 internal/tilegroup/find_mv_stack.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 7e38fa4..71cbd7e 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -484,13 +484,16 @@ func (t *TileGroup) compoundSearchStackProcess(mvRow int, mvCol int, weight int,
 
 	t.FoundMatch = 1
 
-	for idx := 0; idx < t.NumMvFound; idx++ {
+	var idx int
+	for idx = 0; idx < t.NumMvFound; idx++ {
 		if candMvs[0] == t.RefStackMv[idx][0] && candMvs[1] == t.RefStackMv[idx][1] {
-			t.WeightStack[idx] += weight
+			break
 		}
 	}
 
-	if t.NumMvFound < MAX_REF_MV_STACK_SIZE {
+	if idx < t.NumMvFound {
+		t.WeightStack[idx] += weight
+	} else if t.NumMvFound < MAX_REF_MV_STACK_SIZE {
 		t.RefStackMv[t.NumMvFound][0] = candMvs[0]
 		t.RefStackMv[t.NumMvFound][1] = candMvs[1]
 		t.WeightStack[t.NumMvFound] = weight
-- 
2.43.0


From dd416bcf3a6c563e07daa30e171719f28af0f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 078/189] fix: swapping of motion vector candidates

---
 internal/tilegroup/find_mv_stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 71cbd7e..ca60ec1 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -557,6 +557,7 @@ func (t *TileGroup) swapStack(i int, j int, isCompound bool) {
 
 	for list := 0; list < 1+util.Int(isCompound); list++ {
 		for comp := 0; comp < 2; comp++ {
+			temp = t.RefStackMv[i][list][comp]
 			t.RefStackMv[i][list][comp] = t.RefStackMv[j][list][comp]
 			t.RefStackMv[j][list][comp] = temp
 		}
-- 
2.43.0


From b7fa3d17bb3f57683a93b5a53aaaf47db32a069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 079/189] fix: the extra search looks at blocks inside the tile

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index ca60ec1..d7fb53f 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -591,7 +591,7 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 				mvCol = state.MiCol - 1
 			}
 
-			if t.isInside(mvRow, mvCol, state) {
+			if !t.isInside(mvRow, mvCol, state) {
 				break
 			}
 
-- 
2.43.0


From bfe52519f81e160e08c13712e08fa28732623e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 080/189] fix: room for what the motion vector prediction
 collects

---
 internal/tilegroup/find_mv_stack.go |  2 +-
 internal/tilegroup/tile_group.go    | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index d7fb53f..de917d3 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -613,7 +613,7 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 		}
 	}
 
-	var combinedMvs [][][2]int
+	var combinedMvs [2][2][2]int
 	if isCompound {
 		for list := 0; list < 2; list++ {
 			compCount := 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 85bef40..5e9e331 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -148,7 +148,7 @@ type TileGroup struct {
 	NewMvCount          int
 	GlobalMvs           [2][2]int
 	MotionFieldMvs      [][][][2]int
-	IsInters            [2][2]int
+	IsInters            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Mv                  [2][2]int
 	Mvs                 [shared.MAX_TILE_COLS][shared.MAX_TILE_ROWS][2][2]int
 	FoundMatch          int
@@ -156,10 +156,10 @@ type TileGroup struct {
 	CloseMatches        int
 	RefStackMv          [MAX_REF_MV_STACK_SIZE][2][2]int
 	RefIdCount          [2]int
-	RefIdMvs            [][][2]int
+	RefIdMvs            [2][2][2]int
 	RefDiffCount        [2]int
-	RefDiffMvs          [][][2]int
-	WeightStack         [8]int
+	RefDiffMvs          [2][2][2]int
+	WeightStack         [MAX_REF_MV_STACK_SIZE]int
 	AngleDeltaY         int
 	AngleDeltaUV        int
 	CflAlphaU           int
@@ -240,7 +240,7 @@ type TileGroup struct {
 	BckWeight int
 
 	ZeroMvContext int
-	DrlCtxStack   [1]int
+	DrlCtxStack   [MAX_REF_MV_STACK_SIZE]int
 
 	MaxLumaH int
 	MaxLumaW int
-- 
2.43.0


From 939c54e21a339855f7c8372d782064bb9c868313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 081/189] fix: corner candidates of block copies, and of blocks
 not decoded yet

---
 internal/tilegroup/find_mv_stack.go |  4 ++--
 internal/tilegroup/tile_group.go    | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index de917d3..b395f05 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -272,8 +272,8 @@ func (t *TileGroup) scanPointProcess(deltaRow int, deltaCol int, isCompound bool
 	mvCol := state.MiCol + deltaCol
 	weight := 4
 
-	// "has been written to" - what does this mean?
-	if t.isInside(mvRow, mvCol, state) && state.RefFrames[mvRow][mvCol][0] != 0 {
+	// decodeTile marks what has not been written yet with NONE
+	if t.isInside(mvRow, mvCol, state) && state.RefFrames[mvRow][mvCol][0] != shared.NONE {
 		t.addRefMvCandidate(mvRow, mvCol, isCompound, weight, state, uh)
 	}
 }
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 5e9e331..f4e1104 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -730,9 +730,21 @@ func (t *TileGroup) clearLeftContext(state *state.State) {
 	}
 }
 
+// Marks all blocks of the tile as not yet written.
+func (t *TileGroup) clearRefFrames(state *state.State) {
+	for row := range state.RefFrames {
+		for col := range state.RefFrames[row] {
+			if t.isInside(row, col, state) {
+				state.RefFrames[row][col][0] = shared.NONE
+			}
+		}
+	}
+}
+
 // decode_tile()
 func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
 	t.clearAboveContext(state)
+	t.clearRefFrames(state)
 
 	for i := 0; i < shared.FRAME_LF_COUNT; i++ {
 		state.DeltaLF[i] = 0
-- 
2.43.0


From 1d50b6ca9aff67f77e1935eaaffb1427639657fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 082/189] fix: keep the distributions of intra frame luma modes
 between frames

---
 internal/state/state.go            | 3 +++
 internal/tilegroup/tile_group.go   | 4 +++-
 internal/uncompressedheader/cdf.go | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bd96276..7658332 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -101,6 +101,7 @@ type State struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
@@ -284,6 +285,7 @@ type State struct {
 	TileCoeffBaseCdf    [][][][]int
 	TileCoeffBrCdf      [][][][]int
 
+	SavedIntraFrameYModeCdf     [][][]int
 	SavedYModeCdf               [][]int
 	SavedUVModeCflNotAllowedCdf [][]int
 	SavedUVModeCflAllowedCdf    [][]int
@@ -432,6 +434,7 @@ type MemoryArea struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index f4e1104..373b71b 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -369,6 +369,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 // 7.7. Frame end update CDF process
 // frame_end_update_cdf( )
 func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
+	state.IntraFrameYModeCdf = state.SavedIntraFrameYModeCdf
 	state.YModeCdf = state.SavedYModeCdf
 	state.UVModeCflNotAllowedCdf = state.SavedUVModeCflNotAllowedCdf
 	state.UVModeCflAllowedCdf = state.SavedUVModeCflAllowedCdf
@@ -477,7 +478,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF
+	state.TileIntraFrameYModeCdf = state.IntraFrameYModeCdf
 
 	state.TileYModeCdf = state.YModeCdf
 	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
@@ -590,6 +591,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 	b.Position += util.Max(0, state.SymbolMaxBits)
 
 	if !uh.DisableFrameEndUpdateCdf && state.TileNum == uh.TileInfo.ContextUpdateTileId {
+		state.SavedIntraFrameYModeCdf = state.TileIntraFrameYModeCdf
 		state.SavedYModeCdf = state.TileYModeCdf
 		state.SavedUVModeCflNotAllowedCdf = state.TileUVModeCflNotAllowedCdf
 		state.SavedUVModeCflAllowedCdf = state.TileUVModeCflAllowedCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 288d7f6..2e8fbdd 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -7,6 +7,7 @@ import (
 
 // init_non_coeff_cdfs( )
 func initNonCoeffCdfs(state *state.State) {
+	state.IntraFrameYModeCdf = DEFAULT_INTRA_FRAME_Y_MODE_CDF
 	state.YModeCdf = DEFAULT_Y_MODE_CDF
 	state.UVModeCflNotAllowedCdf = DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
 	state.UVModeCflAllowedCdf = DEFAULT_UV_MODE_CFL_ALLOWED_CDF
@@ -138,6 +139,7 @@ func initCoeffCdfs(state *state.State, uh UncompressedHeader) {
 func SaveCdfs(ctx int, s *state.State) {
 	memoryArea := state.MemoryArea{}
 
+	memoryArea.IntraFrameYModeCdf = s.IntraFrameYModeCdf
 	memoryArea.YModeCdf = s.YModeCdf
 	memoryArea.UVModeCflNotAllowedCdf = s.UVModeCflNotAllowedCdf
 	memoryArea.UVModeCflAllowedCdf = s.UVModeCflAllowedCdf
@@ -242,6 +244,7 @@ func SaveCdfs(ctx int, s *state.State) {
 func LoadCdfs(ctx int, s *state.State) {
 	memoryArea := s.Memory[ctx]
 
+	s.IntraFrameYModeCdf = memoryArea.IntraFrameYModeCdf
 	s.YModeCdf = memoryArea.YModeCdf
 	s.UVModeCflNotAllowedCdf = memoryArea.UVModeCflNotAllowedCdf
 	s.UVModeCflAllowedCdf = memoryArea.UVModeCflAllowedCdf
-- 
2.43.0


From e111bde464e7a20c09cd2711594ba0527195c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:55 +0000
Subject: [PATCH 083/189] fix: flags of decoded blocks cover the whole
 superblock and its borders

---
 internal/shared/constants.go             |  3 +++
 internal/state/state.go                  |  2 +-
 internal/tilegroup/compute_prediction.go |  2 +-
 internal/tilegroup/residual.go           | 20 ++++++--------------
 internal/tilegroup/tile_group.go         | 20 ++++++--------------
 5 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/internal/shared/constants.go b/internal/shared/constants.go
index 3af69c4..93d2fce 100644
--- a/internal/shared/constants.go
+++ b/internal/shared/constants.go
@@ -269,3 +269,6 @@ const MAX_TILE_WIDTH = 4096
 const MAX_TILE_AREA = 4096 * 2304
 const MAX_TILE_COLS = 64
 const MAX_TILE_ROWS = 64
+
+// Units of 4x4 samples in the largest superblock, and one on each side.
+const BLOCK_DECODED_SIZE = 34
diff --git a/internal/state/state.go b/internal/state/state.go
index 7658332..a5a3e28 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -47,7 +47,7 @@ type State struct {
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded           [3][13][13]bool
+	BlockDecoded           [3][shared.BLOCK_DECODED_SIZE][shared.BLOCK_DECODED_SIZE]bool
 	FrameRestorationType   []int
 	LoopRestorationSize    [3]int
 	AvailU                 bool
diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 136bcbb..83792a2 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -54,7 +54,7 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				haveLeft = state.AvailL
 				haveAbove = state.AvailU
 			}
-			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][(subBlockMiRow>>subY)-1][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][(subBlockMiCol>>subX)-1], mode, log2W, log2H, state, sh)
+			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][(subBlockMiRow >> subY)][(subBlockMiCol>>subX)+num4x4W+1], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H+1][(subBlockMiCol>>subX)], mode, log2W, log2H, state, sh)
 		}
 
 		if util.Bool(t.IsInter) {
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 4e93f38..6091eab 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -137,19 +137,11 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 				conditionU = state.AvailUChroma
 			}
 
-			// this assumes negative indeces are intended
-			x1 := (subBlockMiCol >> subX) + stepX
-			x2 := (subBlockMiCol >> subX) - 1
-			y1 := (subBlockMiRow >> subY) + stepY
-			y2 := (subBlockMiRow >> subY) - 1
-
-			if x2 < 0 {
-				x2 = len(state.BlockDecoded[plane][y1]) + x2
-			}
-
-			if y2 < 0 {
-				y2 = len(state.BlockDecoded[plane]) + y2
-			}
+			// BlockDecoded has an offset of one
+			x1 := (subBlockMiCol >> subX) + stepX + 1
+			x2 := (subBlockMiCol >> subX)
+			y1 := (subBlockMiRow >> subY) + stepY + 1
+			y2 := (subBlockMiRow >> subY)
 
 			t.predictIntra(
 				plane,
@@ -185,7 +177,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	for i := 0; i < stepY; i++ {
 		for j := 0; j < stepY; j++ {
 			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
-			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
+			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i+1][(subBlockMiCol>>subX)+j+1] = true
 		}
 	}
 }
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 373b71b..bb026d8 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -775,7 +775,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
 			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
-			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
+			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
 		}
@@ -801,25 +801,17 @@ func (t *TileGroup) clearBlockDecodedFlags(r int, c int, sbSize4 int, state *sta
 
 		for y := -1; y <= (sbSize4 >> subY); y++ {
 			for x := -1; x <= (sbSize4 >> subX); x++ {
-				if y < 0 {
-					y = len(state.BlockDecoded[plane]) + y
-				}
-
-				if x < 0 {
-					x = len(state.BlockDecoded[plane][y]) + x
-				}
-
+				// the flags are stored with an offset of one, for the row above and the column to the left
 				if y < 0 && x < sbWidth4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][y+1][x+1] = true
 				} else if x < 0 && y < sbHeight4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][y+1][x+1] = true
 				} else {
-					state.BlockDecoded[plane][y][x] = false
+					state.BlockDecoded[plane][y+1][x+1] = false
 				}
 			}
 		}
-		lastElement := len(state.BlockDecoded[plane][sbSize4>>subY]) - 1
-		state.BlockDecoded[plane][sbSize4>>subY][lastElement] = false
+		state.BlockDecoded[plane][(sbSize4>>subY)+1][0] = false
 	}
 
 }
-- 
2.43.0


From f4573acb7e6d347c025b01efe092569c4a0f907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 084/189] fix: blocks of HORZ, HORZ_A, VERT_B and VERT_4
 partitions

---
 internal/tilegroup/decode_partition.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index ba90c0d..34f88f5 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -53,7 +53,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	if partition == PARTITION_NONE {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ {
-		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
+		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		if hasRows {
 			t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 		}
@@ -70,7 +70,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_HORZ_A {
 		t.decodeBlock(r, c, splitSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
@@ -82,7 +82,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_VERT_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, subSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, splitSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_4 {
 		t.decodeBlock(r+quarterBlock4x4*0, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+quarterBlock4x4*1, c, subSize, b, state, sh, uh)
@@ -94,7 +94,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 		t.decodeBlock(r, c+quarterBlock4x4*0, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*1, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*2, subSize, b, state, sh, uh)
-		if c+quarterBlock4x4*3 < state.MiRows {
+		if c+quarterBlock4x4*3 < state.MiCols {
 			t.decodeBlock(r, c+quarterBlock4x4*3, subSize, b, state, sh, uh)
 		}
 	}
-- 
2.43.0


From b3439ef1b545e37859bad5f37d87016ca2cd87ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 085/189] fix: room of the split distribution

---
 internal/tilegroup/decode_partition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index 34f88f5..d17bae2 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -132,7 +132,7 @@ func splitOrVertElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
@@ -169,7 +169,7 @@ func splitOrHorzElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
-- 
2.43.0


From aa245cab813b7b2c7f38f2e5b882fc73fc6fc2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 086/189] fix: room for what is kept of the blocks

---
 internal/state/state.go          |  2 +-
 internal/tilegroup/tile_group.go | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index a5a3e28..eb4dc3b 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -42,7 +42,7 @@ type State struct {
 	MiSize          int
 	MiSizes         [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	DeltaLF         [shared.FRAME_LF_COUNT]int
-	DeltaLFs        [2][2][4]int
+	DeltaLFs        [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][shared.FRAME_LF_COUNT]int
 	RefLrWiener     [][][]int
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index bb026d8..82136d2 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -134,16 +134,16 @@ type TileGroup struct {
 	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Lossless            bool
 	Skip                int
-	Skips               [2][2]int
-	SkipModes           [2][2]int
+	Skips               [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SkipModes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	YMode               int
 	YModes              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	UVMode              int
-	UVModes             [2][2]int
+	UVModes             [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	PaletteSizeY        int
 	PaletteSizeUV       int
 	InterpFilter        [2]int
-	InterpFilters       [2][2][2]int
+	InterpFilters       [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	NumMvFound          int
 	NewMvCount          int
 	GlobalMvs           [2][2]int
@@ -168,8 +168,8 @@ type TileGroup struct {
 	PredMv              [2][2]int
 	RefMvIdx            int
 	MvCtx               int
-	PaletteSizes        [2][2][2]int
-	PaletteColors       [][][][]int
+	PaletteSizes        [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	PaletteColors       [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][PALETTE_COLORS]int
 	PaletteCache        []int
 	PaletteColorsY      []int
 	PaletteColorsU      []int
@@ -207,7 +207,7 @@ type TileGroup struct {
 
 	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	TxSize       int
-	TxSizes      [2][2]int
+	TxSizes      [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	AboveLevelContext  [][]int
 	AboveDcContext     [][]int
@@ -215,8 +215,8 @@ type TileGroup struct {
 	LeftDcContext      [3][]int
 	LeftSegPredContext []int
 
-	CompGroupIdxs [][]int
-	CompoundIdxs  [][]int
+	CompGroupIdxs [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	CompoundIdxs  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	CompGroupIdx  int
 	CompoundIdx   int
 
@@ -252,7 +252,7 @@ type TileGroup struct {
 	TxTypes           [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	T                 [64]int
 	Residual          [64][64]int
-	LoopFilterTxSizes [3][2][2]int
+	LoopFilterTxSizes [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
 	NewMvContext  int
 	RefMvContext  int
-- 
2.43.0


From 09de82fd20d866d7e651ba78d0c98b2783c162cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 087/189] fix: room for the colours of palettes

---
 internal/tilegroup/palette.go    | 4 ++--
 internal/tilegroup/residual.go   | 6 +++---
 internal/tilegroup/tile_group.go | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index e5245ec..5449cff 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -61,7 +61,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-			t.PaletteColorsY = util.Sort(t.PaletteColorsY, 0, t.PaletteSizeY-1)
+			util.Sort(t.PaletteColorsY[:], 0, t.PaletteSizeY-1)
 		}
 	}
 
@@ -101,7 +101,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-			t.PaletteColorsU = util.Sort(t.PaletteColorsU, 0, t.PaletteSizeUV-1)
+			util.Sort(t.PaletteColorsU[:], 0, t.PaletteSizeUV-1)
 
 			deltaEncodePaletteColorsv := literal.L(1, state, b, uh)
 
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 6091eab..704fbca 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -189,11 +189,11 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 
 	var palette []int
 	if plane == 0 {
-		palette = t.PaletteColorsY
+		palette = t.PaletteColorsY[:]
 	} else if plane == 1 {
-		palette = t.PaletteColorsU
+		palette = t.PaletteColorsU[:]
 	} else {
-		palette = t.PaletteColorsV
+		palette = t.PaletteColorsV[:]
 	}
 
 	// map is a reserved keyword
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 82136d2..24ffc0f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -170,10 +170,10 @@ type TileGroup struct {
 	MvCtx               int
 	PaletteSizes        [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	PaletteColors       [2][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][PALETTE_COLORS]int
-	PaletteCache        []int
-	PaletteColorsY      []int
-	PaletteColorsU      []int
-	PaletteColorsV      []int
+	PaletteCache        [2 * PALETTE_COLORS]int
+	PaletteColorsY      [PALETTE_COLORS]int
+	PaletteColorsU      [PALETTE_COLORS]int
+	PaletteColorsV      [PALETTE_COLORS]int
 	FilterIntraMode     int
 	SkipMode            int
 	IsInter             int
-- 
2.43.0


From 999a906d8d70347d8396f724fb37757aed1482d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 088/189] fix: skip and kind of the block itself in its
 bookkeeping

---
 internal/tilegroup/decode_block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 7a120d6..1c009db 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -46,7 +46,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	t.paletteTokens(b, state, sh)
 	t.readBlockTxSize(b, state, uh)
 
-	if util.Bool(state.Skip) {
+	if util.Bool(t.Skip) {
 		t.resetBlockContext(bw4, bh4, b, state, sh)
 	}
 
@@ -64,7 +64,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 				state.RefFrames[r+y][c+x][refList] = state.RefFrame[refList]
 			}
 
-			if util.Bool(state.IsInter) {
+			if util.Bool(t.IsInter) {
 				if !util.Bool(t.useIntrabc) {
 					t.CompGroupIdxs[r+y][c+x] = t.CompGroupIdx
 					t.CompoundIdxs[r+y][c+x] = t.CompoundIdx
-- 
2.43.0


From a8c563265bc0b82aabf1638c561d2bfbf81097bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 089/189] fix: segments of blocks are kept

---
 internal/tilegroup/decode_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 1c009db..330fd4c 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -89,6 +89,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 			t.Skips[r+y][c+x] = t.Skip
 			t.TxSizes[r+y][c+x] = t.TxSize
 			state.MiSizes[r+y][c+x] = state.MiSize
+			t.SegmentIds[r+y][c+x] = t.SegmentId
 			t.PaletteSizes[0][r+y][c+x] = t.PaletteSizeY
 			t.PaletteSizes[1][r+y][c+x] = t.PaletteSizeUV
 
-- 
2.43.0


From df72ec58df578842c45d3ee588cd7ba117008077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 090/189] fix: second reference of blocks of intra frames

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index ee55ec4..90b092c 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -30,7 +30,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 
 	state.ReadDeltas = false
 	state.RefFrame[0] = shared.INTRA_FRAME
-	state.RefFrame[0] = shared.NONE
+	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
 		t.useIntrabc = b.S()
-- 
2.43.0


From b6aa973f210fcc8e0da044420bf84169133bb5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 091/189] fix: decode use_intrabc

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 90b092c..8a35323 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -33,7 +33,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
-		t.useIntrabc = b.S()
+		t.useIntrabc = symbol.ReadSymbol(state.TileIntrabcCdf, state, b, uh)
 	} else {
 		t.useIntrabc = 0
 	}
-- 
2.43.0


From 92dc61ecccf2734e54cb6f41587162cc6dff0079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 092/189] fix: blocks of block copy are inter

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 8a35323..4c7def8 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -39,7 +39,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 	}
 
 	if util.Bool(t.useIntrabc) {
-		t.IsInter = -1
+		t.IsInter = 1
 		t.YMode = DC_PRED
 		t.UVMode = DC_PRED
 		t.MotionMode = SIMPLE
-- 
2.43.0


From ed1aff2d3d5ccb50d8c685f8603345188b25604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 093/189] fix: chroma from luma in blocks of 32

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 4c7def8..40d607a 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -60,7 +60,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 			var uvMode int
 			if t.Lossless && t.getPlaneResidualSize(state.MiSize, 1, sh) == shared.BLOCK_4X4 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
-			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) < 32 {
+			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
 			} else {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflNotAllowedCdf[t.YMode], state, b, uh)
-- 
2.43.0


From 02f8eab65c9153eb962e25b78525ceb7c0fe32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 094/189] fix: context of skip

---
 internal/tilegroup/intra_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 40d607a..2330401 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -174,10 +174,10 @@ func (t *TileGroup) readSkip(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	} else {
 		ctx := 0
 		if state.AvailU {
-			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+			ctx += t.Skips[state.MiRow-1][state.MiCol]
 		}
 		if state.AvailL {
-			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+			ctx += t.Skips[state.MiRow][state.MiCol-1]
 		}
 
 		t.Skip = symbol.ReadSymbol(state.TileSkipCdf[ctx], state, b, uh)
-- 
2.43.0


From fc10149e32baacff04d9298f548d076a6c77bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 095/189] fix: cdef_idx of all of a block

---
 internal/tilegroup/intra_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 2330401..aa84d09 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -217,12 +217,12 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	c := state.MiCol & cdefMask4
 
 	if state.Cdef.CdefIdx[r][c] == -1 {
-		state.Cdef.CdefIdx[r][c] = literal.L(state.Cdef.CdefBits, state, b, uh)
+		state.Cdef.CdefIdx[r][c] = literal.L(uh.CdefBits, state, b, uh)
 		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
 		for i := r; i < r+h4; i += cdefSize4 {
-			for j := c; i < c+w4; i += cdefSize4 {
+			for j := c; j < c+w4; j += cdefSize4 {
 				state.Cdef.CdefIdx[i][j] = state.Cdef.CdefIdx[r][c]
 			}
 
-- 
2.43.0


From eed6a2ca0ae0f73fb8a6d816eafd980105137ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 096/189] fix: segments stay within those active

---
 internal/tilegroup/intra_frame_mode_info.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index aa84d09..039948a 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -164,6 +164,7 @@ func (t *TileGroup) readSegmentId(b *bitstream.BitStream, uh uncompressedheader.
 
 		t.SegmentId = symbol.ReadSymbol(state.TileSegmentIdCdf[ctx], state, b, uh)
 		t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1)
+		t.SegmentId = util.Clip3(0, uh.LastActiveSegId, t.SegmentId)
 	}
 }
 
-- 
2.43.0


From 75d2b8ff635ffd5b7b4b0a62d4678157472eaa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 097/189] fix: negative alphas of chroma from luma

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 24ffc0f..9d73351 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -87,7 +87,7 @@ const UV_CFL_PRED = 13
 const MAX_ANGLE_DELTA = 3
 
 const CFL_SIGN_ZERO = 0
-const CFL_SIGN_NEG = 2
+const CFL_SIGN_NEG = 1
 
 const INTRABC_DELAY_PIXELS = 256
 
-- 
2.43.0


From 7e2b1be26852fb21ab361b5f165b471ef6e029ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 098/189] fix: decode the modes of filter intra

---
 internal/tilegroup/inter_frame_mode_info.go |  2 +-
 internal/tilegroup/intra_frame_mode_info.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 26a30c6..1b5446c 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -99,7 +99,7 @@ func (t *TileGroup) intraBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.paletteModeInfo(b, state, sh, uh)
 	}
 
-	t.filterIntraModeInfo(b, sh, state)
+	t.filterIntraModeInfo(b, uh, sh, state)
 }
 
 // inter_segment_id( preSkip )
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 039948a..776be7e 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -81,7 +81,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 		if state.MiSize >= shared.BLOCK_8X8 && shared.BLOCK_WIDTH[state.MiSize] <= 64 && shared.BLOCK_HEIGHT[state.MiSize] <= 64 && util.Bool(uh.AllowScreenContentTools) {
 			t.paletteModeInfo(b, state, sh, uh)
 		}
-		t.filterIntraModeInfo(b, sh, state)
+		t.filterIntraModeInfo(b, uh, sh, state)
 	}
 }
 
@@ -383,13 +383,13 @@ func (t *TileGroup) intraAngleInfoUv(b *bitstream.BitStream, state *state.State,
 }
 
 // filter_intra_mode_info()
-func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State) {
-	useFilterIntra := false
+func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader, state *state.State) {
+	t.UseFilterIntra = false
 	if sh.EnableFilterIntra && t.YMode == DC_PRED && t.PaletteSizeY == 0 && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
-		useFilterIntra = util.Bool(b.S())
+		t.UseFilterIntra = util.Bool(symbol.ReadSymbol(state.TileFilterIntraCdf[state.MiSize], state, b, uh))
 
-		if useFilterIntra {
-			t.FilterIntraMode = b.S()
+		if t.UseFilterIntra {
+			t.FilterIntraMode = symbol.ReadSymbol(state.TileFilterIntraModeCdf, state, b, uh)
 		}
 	}
 }
-- 
2.43.0


From acc40ed2719e1defff41d06fa766cd9ead157b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 099/189] fix: context of predicted segments to the left

---
 internal/tilegroup/inter_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 1b5446c..cd64af5 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -120,7 +120,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 						t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 					}
 					for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-						t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+						t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 					}
 					t.readSegmentId(b, uh, state)
 					return
@@ -139,7 +139,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 					t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 				}
 				for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-					t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+					t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 				}
 
 			} else {
-- 
2.43.0


From de2eb50edb3931e867622b674dcef7de8ca1976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 100/189] fix: decode seg_id_predicted

---
 internal/tilegroup/inter_frame_mode_info.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index cd64af5..f722cde 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -128,7 +128,8 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 			}
 
 			if uh.SegmentationTemporalUpdate == 1 {
-				segIdPredicted := b.S()
+				ctx := t.LeftSegPredContext[state.MiRow] + t.AboveSegPredContext[state.MiCol]
+				segIdPredicted := symbol.ReadSymbol(state.TileSegmentIdPredictedCdf[ctx], state, b, uh)
 				if util.Bool(segIdPredicted) {
 					t.SegmentId = predictedSegmentId
 				} else {
-- 
2.43.0


From 766c7e29280b37b44763596f33ee2cae62305af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 101/189] fix: decode skip_mode

---
 internal/tilegroup/inter_frame_mode_info.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index f722cde..917a346 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -176,7 +176,15 @@ func (t *TileGroup) readSkipMode(b *bitstream.BitStream, state *state.State, uh
 	if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) || !util.Bool(uh.SkipModePresent) || shared.BLOCK_WIDTH[state.MiSize] < 8 || shared.BLOCK_HEIGHT[state.MiSize] < 8 {
 		t.SkipMode = 0
 	} else {
-		t.SkipMode = b.S()
+		ctx := 0
+		if state.AvailU {
+			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+		}
+		if state.AvailL {
+			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+		}
+
+		t.SkipMode = symbol.ReadSymbol(state.TileSkipModeCdf[ctx], state, b, uh)
 	}
 }
 
-- 
2.43.0


From af2e338182c66ab8e22870a9a5b8c3278c36b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 102/189] fix: segments of global motion are inter

---
 internal/tilegroup/inter_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 917a346..a19b7fe 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -195,7 +195,7 @@ func (t *TileGroup) readIsInter(b *bitstream.BitStream, state *state.State, uh u
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		t.IsInter = util.Int(state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME] != shared.INTRA_FRAME)
 	} else if t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
-		t.IsInter = 0
+		t.IsInter = 1
 	} else {
 		// S()
 		var ctx int
-- 
2.43.0


From 9ecf2266a8089c3aab62498ac609a965d93b6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 103/189] fix: decode compound_mode

---
 internal/tilegroup/inter_block_mode_info.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 9c49f11..0a975a1 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -32,7 +32,8 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
 		t.YMode = shared.GLOBALMV
 	} else if isCompound {
-		compoundMode := b.S()
+		ctx := COMPOUND_MODE_CTX_MAP[t.RefMvContext>>1][util.Min(t.NewMvContext, len(COMPOUND_MODE_CTX_MAP[0])-1)]
+		compoundMode := symbol.ReadSymbol(state.TileCompoundModeCdf[ctx], state, b, uh)
 
 		t.YMode = shared.NEAREST_NEARESTMV + compoundMode
 	} else {
-- 
2.43.0


From 152d4f54420e0799abc1434edfec7d18ff7648af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 104/189] fix: decode ref_mv

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 0a975a1..fc00434 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -45,7 +45,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 			if zeroMv == 0 {
 				t.YMode = shared.GLOBALMV
 			} else {
-				refMv := b.S()
+				refMv := symbol.ReadSymbol(state.TileRefMvCdf[t.RefMvContext], state, b, uh)
 				if refMv == 0 {
 					t.YMode = shared.NEARESTMV
 				} else {
-- 
2.43.0


From eb29dcd3f85ff1bf5d8f41369cf2808a50ed48b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:04 +0000
Subject: [PATCH 105/189] fix: decode drl_mode

---
 internal/tilegroup/inter_block_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index fc00434..9893045 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -59,7 +59,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	if t.YMode == shared.NEWMV || t.YMode == shared.NEW_NEWMV {
 		for idx := 0; idx < 2; idx++ {
 			if t.NumMvFound > idx+1 {
-				drlMode := b.S()
+				drlMode := symbol.ReadSymbol(state.TileDrlModeCdf[t.DrlCtxStack[idx]], state, b, uh)
 				if drlMode == 0 {
 					t.RefMvIdx = idx
 					break
@@ -71,7 +71,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.RefMvIdx = 1
 		for idx := 1; idx < 3; idx++ {
 			if t.NumMvFound > idx+1 {
-				drlMode := b.S()
+				drlMode := symbol.ReadSymbol(state.TileDrlModeCdf[t.DrlCtxStack[idx]], state, b, uh)
 				if drlMode == 0 {
 					t.RefMvIdx = idx
 					break
-- 
2.43.0


From be529a6f0ae8b73137bc6bd175eafa6e7225aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 106/189] fix: references of skipped segments and those of
 global motion

---
 internal/tilegroup/inter_block_mode_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 9893045..f5df07e 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -117,6 +117,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		state.RefFrame[0] = state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME]
 		state.RefFrame[1] = shared.NONE
+	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
+		state.RefFrame[0] = shared.LAST_FRAME
+		state.RefFrame[1] = shared.NONE
 	} else {
 		bw4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		bh4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
-- 
2.43.0


From a7942718ef16810ac279c1b7f970ea59db26342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 107/189] fix: decode the references of compound prediction

---
 internal/tilegroup/inter_block_mode_info.go |  20 +--
 internal/tilegroup/syntax_element.go        | 148 ++++++++++++++++++++
 2 files changed, 158 insertions(+), 10 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index f5df07e..b66d9aa 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -126,22 +126,22 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 		var compMode int
 		if uh.ReferenceSelect && util.Min(bw4, bh4) >= 2 {
-			compMode = b.S()
+			compMode = t.compModeSymbol(state, b, uh)
 		} else {
 			compMode = SINGLE_REFERENCE
 		}
 
 		if compMode == COMPOUND_REFERENCE {
-			compRefType := b.S()
+			compRefType := t.compRefTypeSymbol(state, b, uh)
 			if compRefType == UNIDIR_COMP_REFERENCE {
-				uniCompRef := b.S()
+				uniCompRef := t.uniCompRefSymbol(state, b, uh)
 				if util.Bool(uniCompRef) {
 					state.RefFrame[0] = shared.BWDREF_FRAME
 					state.RefFrame[1] = shared.ALTREF_FRAME
 				} else {
-					uniCompRefP1 := b.S()
+					uniCompRefP1 := t.uniCompRefP1Symbol(state, b, uh)
 					if util.Bool(uniCompRefP1) {
-						uniCompRefP2 := b.S()
+						uniCompRefP2 := t.uniCompRefP2Symbol(state, b, uh)
 
 						if util.Bool(uniCompRefP2) {
 							state.RefFrame[0] = shared.LAST_FRAME
@@ -157,9 +157,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 					}
 				}
 			} else {
-				compRef := b.S()
+				compRef := symbol.ReadSymbol(state.TileCompRefCdf[t.last12RefCtx(state)][0], state, b, uh)
 				if compRef == 0 {
-					compRefP1 := b.S()
+					compRefP1 := symbol.ReadSymbol(state.TileCompRefCdf[t.lastRefCtx(state)][1], state, b, uh)
 
 					if util.Bool(compRefP1) {
 						state.RefFrame[0] = shared.LAST2_FRAME
@@ -168,7 +168,7 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 					}
 				} else {
-					compRefP2 := b.S()
+					compRefP2 := symbol.ReadSymbol(state.TileCompRefCdf[t.last3RefCtx(state)][2], state, b, uh)
 
 					if util.Bool(compRefP2) {
 						state.RefFrame[0] = shared.GOLDEN_FRAME
@@ -179,9 +179,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 				}
 
-				compBwdref := b.S()
+				compBwdref := symbol.ReadSymbol(state.TileCompBwdRefCdf[t.bwdAlt2RefCtx(state)][0], state, b, uh)
 				if compBwdref == 0 {
-					compBwdrefP1 := b.S()
+					compBwdrefP1 := symbol.ReadSymbol(state.TileCompBwdRefCdf[t.bwdRefCtx(state)][1], state, b, uh)
 
 					if util.Bool(compBwdrefP1) {
 						state.RefFrame[1] = shared.ALTREF2_FRAME
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index e515381..e99bc9e 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -6,6 +6,7 @@ import (
 	"github.com/m4tthewde/gov1/internal/state"
 	"github.com/m4tthewde/gov1/internal/symbol"
 	"github.com/m4tthewde/gov1/internal/uncompressedheader"
+	"github.com/m4tthewde/gov1/internal/util"
 )
 
 func (t *TileGroup) countRefs(frameType int, state *state.State) int {
@@ -87,3 +88,150 @@ func (t *TileGroup) singleRefP6Symbol(state *state.State, b *bitstream.BitStream
 
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][5], state, b, uh)
 }
+
+// ctx of comp_ref: LAST and LAST2 against LAST3 and GOLDEN
+func (t *TileGroup) last12RefCtx(state *state.State) int {
+	last12Count := t.countRefs(shared.LAST_FRAME, state) + t.countRefs(shared.LAST2_FRAME, state)
+	last3GoldCount := t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
+	return refCountCtx(last12Count, last3GoldCount)
+}
+
+// ctx of comp_ref_p1: LAST against LAST2
+func (t *TileGroup) lastRefCtx(state *state.State) int {
+	return refCountCtx(t.countRefs(shared.LAST_FRAME, state), t.countRefs(shared.LAST2_FRAME, state))
+}
+
+// ctx of comp_ref_p2: LAST3 against GOLDEN
+func (t *TileGroup) last3RefCtx(state *state.State) int {
+	return refCountCtx(t.countRefs(shared.LAST3_FRAME, state), t.countRefs(shared.GOLDEN_FRAME, state))
+}
+
+// ctx of comp_bwdref: BWDREF and ALTREF2 against ALTREF
+func (t *TileGroup) bwdAlt2RefCtx(state *state.State) int {
+	brfarf2Count := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state)
+	return refCountCtx(brfarf2Count, t.countRefs(shared.ALTREF_FRAME, state))
+}
+
+// ctx of comp_bwdref_p1: BWDREF against ALTREF2
+func (t *TileGroup) bwdRefCtx(state *state.State) int {
+	return refCountCtx(t.countRefs(shared.BWDREF_FRAME, state), t.countRefs(shared.ALTREF2_FRAME, state))
+}
+
+// ctx of uni_comp_ref: forward against backward references
+func (t *TileGroup) fwdRefCtx(state *state.State) int {
+	fwdCount := t.countRefs(shared.LAST_FRAME, state)
+	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
+	fwdCount += t.countRefs(shared.LAST3_FRAME, state)
+	fwdCount += t.countRefs(shared.GOLDEN_FRAME, state)
+	bwdCount := t.countRefs(shared.BWDREF_FRAME, state)
+	bwdCount += t.countRefs(shared.ALTREF2_FRAME, state)
+	bwdCount += t.countRefs(shared.ALTREF_FRAME, state)
+	return refCountCtx(fwdCount, bwdCount)
+}
+
+func (t *TileGroup) uniCompRefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[t.fwdRefCtx(state)][0], state, b, uh)
+}
+
+func (t *TileGroup) uniCompRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	last2Count := t.countRefs(shared.LAST2_FRAME, state)
+	last3GoldCount := t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[refCountCtx(last2Count, last3GoldCount)][1], state, b, uh)
+}
+
+func (t *TileGroup) uniCompRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[t.last3RefCtx(state)][2], state, b, uh)
+}
+
+// check_backward( refFrame )
+func checkBackward(refFrame int) bool {
+	return refFrame >= shared.BWDREF_FRAME && refFrame <= shared.ALTREF_FRAME
+}
+
+// comp_mode
+func (t *TileGroup) compModeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	var ctx int
+	if state.AvailU && state.AvailL {
+		if t.AboveSingle && t.LeftSingle {
+			ctx = util.Int(checkBackward(t.AboveRefFrame[0]) != checkBackward(t.LeftRefFrame[0]))
+		} else if t.AboveSingle {
+			ctx = 2 + util.Int(checkBackward(t.AboveRefFrame[0]) || t.AboveIntra)
+		} else if t.LeftSingle {
+			ctx = 2 + util.Int(checkBackward(t.LeftRefFrame[0]) || t.LeftIntra)
+		} else {
+			ctx = 4
+		}
+	} else if state.AvailU {
+		if t.AboveSingle {
+			ctx = util.Int(checkBackward(t.AboveRefFrame[0]))
+		} else {
+			ctx = 3
+		}
+	} else if state.AvailL {
+		if t.LeftSingle {
+			ctx = util.Int(checkBackward(t.LeftRefFrame[0]))
+		} else {
+			ctx = 3
+		}
+	} else {
+		ctx = 1
+	}
+
+	return symbol.ReadSymbol(state.TileCompModeCdf[ctx], state, b, uh)
+}
+
+// comp_ref_type
+func (t *TileGroup) compRefTypeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	above0 := t.AboveRefFrame[0]
+	above1 := t.AboveRefFrame[1]
+	left0 := t.LeftRefFrame[0]
+	left1 := t.LeftRefFrame[1]
+	aboveCompInter := state.AvailU && !t.AboveIntra && !t.AboveSingle
+	leftCompInter := state.AvailL && !t.LeftIntra && !t.LeftSingle
+	aboveUniComp := aboveCompInter && checkBackward(above0) == checkBackward(above1)
+	leftUniComp := leftCompInter && checkBackward(left0) == checkBackward(left1)
+
+	var ctx int
+	if state.AvailU && !t.AboveIntra && state.AvailL && !t.LeftIntra {
+		samedir := util.Int(checkBackward(above0) == checkBackward(left0))
+		if !aboveCompInter && !leftCompInter {
+			ctx = 1 + 2*samedir
+		} else if !aboveCompInter {
+			if !leftUniComp {
+				ctx = 1
+			} else {
+				ctx = 3 + samedir
+			}
+		} else if !leftCompInter {
+			if !aboveUniComp {
+				ctx = 1
+			} else {
+				ctx = 3 + samedir
+			}
+		} else {
+			if !aboveUniComp && !leftUniComp {
+				ctx = 0
+			} else if !aboveUniComp || !leftUniComp {
+				ctx = 2
+			} else {
+				ctx = 3 + util.Int((above0 == shared.BWDREF_FRAME) == (left0 == shared.BWDREF_FRAME))
+			}
+		}
+	} else if state.AvailU && state.AvailL {
+		if aboveCompInter {
+			ctx = 1 + 2*util.Int(aboveUniComp)
+		} else if leftCompInter {
+			ctx = 1 + 2*util.Int(leftUniComp)
+		} else {
+			ctx = 2
+		}
+	} else if aboveCompInter {
+		ctx = 4 * util.Int(aboveUniComp)
+	} else if leftCompInter {
+		ctx = 4 * util.Int(leftUniComp)
+	} else {
+		ctx = 2
+	}
+
+	return symbol.ReadSymbol(state.TileCompRefTypeCdf[ctx], state, b, uh)
+}
-- 
2.43.0


From 0380dfe2641381483638e8448cda2c7a1ffd7210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 108/189] fix: contexts of single_ref_p2 and single_ref_p4

---
 internal/tilegroup/syntax_element.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index e99bc9e..31d121e 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -55,11 +55,7 @@ func (t *TileGroup) singleRefP1Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
-	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
-	ctx := refCountCtx(brfCount, arf2Count)
-
-	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][1], state, b, uh)
+	return symbol.ReadSymbol(state.TileSingleRefCdf[t.bwdAlt2RefCtx(state)][1], state, b, uh)
 }
 
 func (t *TileGroup) singleRefP3Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
@@ -70,15 +66,7 @@ func (t *TileGroup) singleRefP3Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP4Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	fwdCount := t.countRefs(shared.LAST_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST3_FRAME, state)
-	fwdCount += t.countRefs(shared.GOLDEN_FRAME, state)
-	bwdCount := t.countRefs(shared.BWDREF_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF2_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF_FRAME, state)
-	ctx := refCountCtx(fwdCount, bwdCount)
-	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][3], state, b, uh)
+	return symbol.ReadSymbol(state.TileSingleRefCdf[t.lastRefCtx(state)][3], state, b, uh)
 }
 
 func (t *TileGroup) singleRefP6Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-- 
2.43.0


From b17d390cdb87111149bec441ede687a980c85837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:08 +0000
Subject: [PATCH 109/189] fix: decode single_ref_p5

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index b66d9aa..bd72651 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -211,7 +211,7 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 			} else {
 				singleRefP3 := t.singleRefP3Symbol(state, b, uh)
 				if util.Bool(singleRefP3) {
-					singleRefP5 := b.S()
+					singleRefP5 := symbol.ReadSymbol(state.TileSingleRefCdf[t.last3RefCtx(state)][4], state, b, uh)
 					if util.Bool(singleRefP5) {
 						state.RefFrame[0] = shared.GOLDEN_FRAME
 					} else {
-- 
2.43.0


From 75f2b6c0d2b3b686c2c94f1092562df715969d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 110/189] fix: decode interintra

---
 internal/tilegroup/inter_block_mode_info.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index bd72651..b9879ee 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -82,7 +82,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	}
 
 	t.assignMv(util.Int(isCompound), b, state, sh, uh)
-	t.readInterIntraMode(isCompound, b, state, sh)
+	t.readInterIntraMode(isCompound, b, state, sh, uh)
 	t.readMotionMode(isCompound, b, uh, state)
 	t.readCompoundType(isCompound, b, state, sh, uh)
 
@@ -470,19 +470,20 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 }
 
 // read_interintra_mode( isCompound )
-func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
-	if util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize > +shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
-		t.InterIntra = b.S()
+func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
+	if !util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize >= shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
+		ctx := SIZE_GROUP[state.MiSize] - 1
+		t.InterIntra = symbol.ReadSymbol(state.TileInterIntraCdf[ctx], state, b, uh)
 
 		if util.Bool(t.InterIntra) {
-			t.InterIntraMode = b.S()
+			t.InterIntraMode = symbol.ReadSymbol(state.TileInterIntraModeCdf[ctx], state, b, uh)
 			state.RefFrame[1] = shared.INTRA_FRAME
 			t.AngleDeltaY = 0
 			t.AngleDeltaUV = 0
 			t.UseFilterIntra = false
-			t.WedgeInterIntra = b.S()
+			t.WedgeInterIntra = symbol.ReadSymbol(state.TileWedgeInterIntraCdf[state.MiSize], state, b, uh)
 			if util.Bool(t.WedgeInterIntra) {
-				t.WedgeIndex = b.S()
+				t.WedgeIndex = symbol.ReadSymbol(state.TileWedgeIndexCdf[state.MiSize], state, b, uh)
 				t.WedgeSign = 0
 			}
 		}
-- 
2.43.0


From d3186dfe39fa170e85d0bd823a2f91e68cc397a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 111/189] fix: decode the motion mode

---
 internal/tilegroup/inter_block_mode_info.go | 40 +++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index b9879ee..0b7e7b3 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -255,9 +255,14 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 		}
 	}
 
+	if isCompound || state.RefFrame[1] == shared.INTRA_FRAME || !t.hasOverlappableCandidates(state) {
+		t.MotionMode = SIMPLE
+		return
+	}
+
 	t.findWarpSamples(state)
 	if uh.ForceIntegerMv || t.NumSamples == 0 || !uh.AllowWarpedMotion || t.isScaled(state.RefFrame[0], state, uh) {
-		useObmc := b.S()
+		useObmc := symbol.ReadSymbol(state.TileUseObmcCdf[state.MiSize], state, b, uh)
 		if util.Bool(useObmc) {
 			t.MotionMode = OBMC
 
@@ -265,7 +270,7 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 			t.MotionMode = SIMPLE
 		}
 	} else {
-		t.MotionMode = b.S()
+		t.MotionMode = symbol.ReadSymbol(state.TileMotionModeCdf[state.MiSize], state, b, uh)
 	}
 }
 
@@ -496,3 +501,34 @@ func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream,
 func (t *TileGroup) hasNearmv() bool {
 	return t.YMode == shared.NEARMV || t.YMode == shared.NEAR_NEARMV || t.YMode == shared.NEAR_NEWMV || t.YMode == shared.NEW_NEARMV
 }
+
+// has_overlappable_candidates()
+func (t *TileGroup) hasOverlappableCandidates(state *state.State) bool {
+	if state.AvailU {
+		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
+		for x4 := state.MiCol; x4 < util.Min(state.MiCols, state.MiCol+w4); x4 += 2 {
+			x5 := x4 | 1
+			if x5 >= state.MiCols {
+				x5 = state.MiCols - 1
+			}
+			if state.RefFrames[state.MiRow-1][x5][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
+	}
+
+	if state.AvailL {
+		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
+		for y4 := state.MiRow; y4 < util.Min(state.MiRows, state.MiRow+h4); y4 += 2 {
+			y5 := y4 | 1
+			if y5 >= state.MiRows {
+				y5 = state.MiRows - 1
+			}
+			if state.RefFrames[y5][state.MiCol-1][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 9038791d5e142a8035b2bafe16b93596c4fc53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 112/189] fix: decode the compound type

---
 internal/tilegroup/inter_block_mode_info.go | 10 ++---
 internal/tilegroup/syntax_element.go        | 48 +++++++++++++++++++++
 2 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 0b7e7b3..fb37eb7 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -431,12 +431,12 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 	if isCompound {
 		n := wedgemask.Wedge_Bits[state.MiSize]
 		if sh.EnableMaskedCompound {
-			t.CompGroupIdx = b.S()
+			t.CompGroupIdx = t.compGroupIdxSymbol(state, b, uh)
 		}
 
 		if t.CompGroupIdx == 0 {
 			if sh.EnableJntComp {
-				t.CompoundIdx = b.S()
+				t.CompoundIdx = t.compoundIdxSymbol(state, b, uh, sh)
 				if util.Bool(t.CompoundIdx) {
 					t.CompoundType = COMPOUND_AVERAGE
 
@@ -450,13 +450,13 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 			if n == 0 {
 				t.CompoundType = COMPOUND_DIFFWTD
 			} else {
-				t.CompoundType = b.S()
+				t.CompoundType = symbol.ReadSymbol(state.TileCompoundTypeCdf[state.MiSize], state, b, uh)
 			}
 		}
 
 		if t.CompoundType == COMPOUND_WEDGE {
-			t.WedgeIndex = b.S()
-			t.WedgeIndex = literal.L(1, state, b, uh)
+			t.WedgeIndex = symbol.ReadSymbol(state.TileWedgeIndexCdf[state.MiSize], state, b, uh)
+			t.WedgeSign = literal.L(1, state, b, uh)
 		} else if t.CompoundType == COMPOUND_DIFFWTD {
 			t.MaskType = literal.L(1, state, b, uh)
 		}
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index 31d121e..8ca8a48 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -2,6 +2,7 @@ package tilegroup
 
 import (
 	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
 	"github.com/m4tthewde/gov1/internal/symbol"
@@ -223,3 +224,50 @@ func (t *TileGroup) compRefTypeSymbol(state *state.State, b *bitstream.BitStream
 
 	return symbol.ReadSymbol(state.TileCompRefTypeCdf[ctx], state, b, uh)
 }
+
+// comp_group_idx
+func (t *TileGroup) compGroupIdxSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := 0
+	if state.AvailU {
+		if !t.AboveSingle {
+			ctx += t.CompGroupIdxs[state.MiRow-1][state.MiCol]
+		} else if t.AboveRefFrame[0] == shared.ALTREF_FRAME {
+			ctx += 3
+		}
+	}
+	if state.AvailL {
+		if !t.LeftSingle {
+			ctx += t.CompGroupIdxs[state.MiRow][state.MiCol-1]
+		} else if t.LeftRefFrame[0] == shared.ALTREF_FRAME {
+			ctx += 3
+		}
+	}
+
+	return symbol.ReadSymbol(state.TileCompGroupIdxCdf[util.Min(5, ctx)], state, b, uh)
+}
+
+// compound_idx
+func (t *TileGroup) compoundIdxSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) int {
+	fwd := util.Abs(uh.GetRelativeDist(uh.OrderHints[state.RefFrame[0]], uh.OrderHint, sh))
+	bck := util.Abs(uh.GetRelativeDist(uh.OrderHints[state.RefFrame[1]], uh.OrderHint, sh))
+	ctx := 0
+	if fwd == bck {
+		ctx = 3
+	}
+	if state.AvailU {
+		if !t.AboveSingle {
+			ctx += t.CompoundIdxs[state.MiRow-1][state.MiCol]
+		} else if t.AboveRefFrame[0] == shared.ALTREF_FRAME {
+			ctx++
+		}
+	}
+	if state.AvailL {
+		if !t.LeftSingle {
+			ctx += t.CompoundIdxs[state.MiRow][state.MiCol-1]
+		} else if t.LeftRefFrame[0] == shared.ALTREF_FRAME {
+			ctx++
+		}
+	}
+
+	return symbol.ReadSymbol(state.TileCompoundIdxCdf[ctx], state, b, uh)
+}
-- 
2.43.0


From 587de0bc989122441a80b896572fa3cb4226080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 113/189] fix: decode interp_filter

---
 internal/tilegroup/inter_block_mode_info.go |  2 +-
 internal/tilegroup/syntax_element.go        | 31 +++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index fb37eb7..61e2a86 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -93,7 +93,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		}
 		for dir := 0; dir < x; dir++ {
 			if t.needsInterpFilter(state) {
-				t.InterpFilter[dir] = b.S()
+				t.InterpFilter[dir] = t.interpFilterSymbol(dir, state, b, uh)
 			} else {
 				t.InterpFilter[dir] = shared.EIGHTTAP
 			}
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index 8ca8a48..fdfd64d 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -271,3 +271,34 @@ func (t *TileGroup) compoundIdxSymbol(state *state.State, b *bitstream.BitStream
 
 	return symbol.ReadSymbol(state.TileCompoundIdxCdf[ctx], state, b, uh)
 }
+
+// interp_filter[ dir ]
+func (t *TileGroup) interpFilterSymbol(dir int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := ((dir & 1) * 2) + util.Int(state.RefFrame[1] > shared.INTRA_FRAME)
+	ctx *= 4
+	leftType := 3
+	aboveType := 3
+
+	if state.AvailL {
+		if t.LeftRefFrame[0] == state.RefFrame[0] || t.LeftRefFrame[1] == state.RefFrame[0] {
+			leftType = t.InterpFilters[state.MiRow][state.MiCol-1][dir]
+		}
+	}
+	if state.AvailU {
+		if t.AboveRefFrame[0] == state.RefFrame[0] || t.AboveRefFrame[1] == state.RefFrame[0] {
+			aboveType = t.InterpFilters[state.MiRow-1][state.MiCol][dir]
+		}
+	}
+
+	if leftType == aboveType {
+		ctx += leftType
+	} else if leftType == 3 {
+		ctx += aboveType
+	} else if aboveType == 3 {
+		ctx += leftType
+	} else {
+		ctx += 3
+	}
+
+	return symbol.ReadSymbol(state.TileInterpFilterCdf[ctx], state, b, uh)
+}
-- 
2.43.0


From 8bf7c3aa46c96fe6d664caf965c00d0c4273db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 114/189] fix: filter of compound blocks of global motion

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 61e2a86..11fe68a 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -413,7 +413,7 @@ func (t *TileGroup) needsInterpFilter(state *state.State) bool {
 	} else if large && t.YMode == shared.GLOBALMV {
 		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION
 	} else if large && t.YMode == shared.GLOBAL_GLOBALMV {
-		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[1] == shared.TRANSLATION
+		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[state.RefFrame[1]] == shared.TRANSLATION
 	} else {
 		return true
 	}
-- 
2.43.0


From 3b968adaa6e932e22f529211060f16dd1c7c4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 115/189] fix: keep the distributions of palette_size_y

---
 internal/state/state.go            | 4 ++++
 internal/tilegroup/tile_group.go   | 3 +++
 internal/uncompressedheader/cdf.go | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/internal/state/state.go b/internal/state/state.go
index eb4dc3b..3f48eb6 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -147,6 +147,7 @@ type State struct {
 	MvHpCdf                [shared.MV_CONTEXTS][2][]int
 	PaletteYModeCdf        [][][]int
 	PaletteUVModeCdf       [][]int
+	PaletteYSizeCdf        [][]int
 	PaletteUVSizeCdf       [][]int
 	PaletteSize2YColorCdf  [][]int
 	PaletteSize2UVColorCdf [][]int
@@ -231,6 +232,7 @@ type State struct {
 	TileMvHpCdf                [shared.MV_CONTEXTS][2][]int
 	TilePaletteYModeCdf        [][][]int
 	TilePaletteUVModeCdf       [][]int
+	TilePaletteYSizeCdf        [][]int
 	TilePaletteUVSizeCdf       [][]int
 	TilePaletteSize2YColorCdf  [][]int
 	TilePaletteSize2UVColorCdf [][]int
@@ -330,6 +332,7 @@ type State struct {
 	SavedMvHpCdf                [shared.MV_CONTEXTS][2][]int
 	SavedPaletteYModeCdf        [][][]int
 	SavedPaletteUVModeCdf       [][]int
+	SavedPaletteYSizeCdf        [][]int
 	SavedPaletteUVSizeCdf       [][]int
 	SavedPaletteSize2YColorCdf  [][]int
 	SavedPaletteSize2UVColorCdf [][]int
@@ -480,6 +483,7 @@ type MemoryArea struct {
 	MvHpCdf                [shared.MV_CONTEXTS][2][]int
 	PaletteYModeCdf        [][][]int
 	PaletteUVModeCdf       [][]int
+	PaletteYSizeCdf        [][]int
 	PaletteUVSizeCdf       [][]int
 	PaletteSize2YColorCdf  [][]int
 	PaletteSize2UVColorCdf [][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 9d73351..f9ce74d 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -414,6 +414,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.MvHpCdf = state.SavedMvHpCdf
 	state.PaletteYModeCdf = state.SavedPaletteYModeCdf
 	state.PaletteUVModeCdf = state.SavedPaletteUVModeCdf
+	state.PaletteYSizeCdf = state.SavedPaletteYSizeCdf
 	state.PaletteUVSizeCdf = state.SavedPaletteUVSizeCdf
 	state.PaletteSize2YColorCdf = state.SavedPaletteSize2YColorCdf
 	state.PaletteSize2UVColorCdf = state.SavedPaletteSize2UVColorCdf
@@ -524,6 +525,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TileMvHpCdf = state.MvHpCdf
 	state.TilePaletteYModeCdf = state.PaletteYModeCdf
 	state.TilePaletteUVModeCdf = state.PaletteUVModeCdf
+	state.TilePaletteYSizeCdf = state.PaletteYSizeCdf
 	state.TilePaletteUVSizeCdf = state.PaletteUVSizeCdf
 	state.TilePaletteSize2YColorCdf = state.PaletteSize2YColorCdf
 	state.TilePaletteSize2UVColorCdf = state.PaletteSize2UVColorCdf
@@ -636,6 +638,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedMvHpCdf = state.TileMvHpCdf
 		state.SavedPaletteYModeCdf = state.TilePaletteYModeCdf
 		state.SavedPaletteUVModeCdf = state.TilePaletteUVModeCdf
+		state.SavedPaletteYSizeCdf = state.TilePaletteYSizeCdf
 		state.SavedPaletteUVSizeCdf = state.TilePaletteUVSizeCdf
 		state.SavedPaletteSize2YColorCdf = state.TilePaletteSize2YColorCdf
 		state.SavedPaletteSize2UVColorCdf = state.TilePaletteSize2UVColorCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e8fbdd..b303f69 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -61,6 +61,7 @@ func initNonCoeffCdfs(state *state.State) {
 
 	state.PaletteYModeCdf = DEFAULT_PALETTE_Y_MODE_CDF
 	state.PaletteUVModeCdf = DEFAULT_PALETTE_UV_MODE_CDF
+	state.PaletteYSizeCdf = DEFAULT_PALETTE_Y_SIZE_CDF
 	state.PaletteUVSizeCdf = DEFAULT_PALETTE_UV_SIZE_CDF
 	state.PaletteSize2YColorCdf = DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF
 	state.PaletteSize2UVColorCdf = DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF
@@ -184,6 +185,7 @@ func SaveCdfs(ctx int, s *state.State) {
 	memoryArea.MvHpCdf = s.MvHpCdf
 	memoryArea.PaletteYModeCdf = s.PaletteYModeCdf
 	memoryArea.PaletteUVModeCdf = s.PaletteUVModeCdf
+	memoryArea.PaletteYSizeCdf = s.PaletteYSizeCdf
 	memoryArea.PaletteUVSizeCdf = s.PaletteUVSizeCdf
 	memoryArea.PaletteSize2YColorCdf = s.PaletteSize2YColorCdf
 	memoryArea.PaletteSize2UVColorCdf = s.PaletteSize2UVColorCdf
@@ -289,6 +291,7 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.MvHpCdf = memoryArea.MvHpCdf
 	s.PaletteYModeCdf = memoryArea.PaletteYModeCdf
 	s.PaletteUVModeCdf = memoryArea.PaletteUVModeCdf
+	s.PaletteYSizeCdf = memoryArea.PaletteYSizeCdf
 	s.PaletteUVSizeCdf = memoryArea.PaletteUVSizeCdf
 	s.PaletteSize2YColorCdf = memoryArea.PaletteSize2YColorCdf
 	s.PaletteSize2UVColorCdf = memoryArea.PaletteSize2UVColorCdf
-- 
2.43.0


From cd38e18b51f2165e8604a568e6291dc9243504cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 116/189] fix: decode has_palette_uv and the palette sizes

---
 internal/tilegroup/palette.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 5449cff..e5bbb22 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -27,7 +27,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 		hasPaletteY := symbol.ReadSymbol(state.TilePaletteYModeCdf[bSizeCtx][ctx], state, b, uh)
 
 		if util.Bool(hasPaletteY) {
-			paletteSizeYMinus2 := b.S()
+			paletteSizeYMinus2 := symbol.ReadSymbol(state.TilePaletteYSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeY = paletteSizeYMinus2 + 2
 			cacheN := t.getPaletteCache(0, state)
 			idx := 0
@@ -66,9 +66,10 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 	}
 
 	if t.HasChroma && t.UVMode == DC_PRED {
-		hasPaletteUv := b.S()
+		ctx := util.Int(t.PaletteSizeY > 0)
+		hasPaletteUv := symbol.ReadSymbol(state.TilePaletteUVModeCdf[ctx], state, b, uh)
 		if util.Bool(hasPaletteUv) {
-			paletteSizeUvMinus2 := b.S()
+			paletteSizeUvMinus2 := symbol.ReadSymbol(state.TilePaletteUVSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeUV = paletteSizeUvMinus2 + 2
 			cacheN := t.getPaletteCache(1, state)
 			idx := 0
-- 
2.43.0


From 92b43820eaa26faf28c1195a462d2702a67c4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 117/189] fix: number of bits of palette_delta_y

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index e5bbb22..52dc406 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -48,7 +48,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 
 			var paletteBits int
 			if idx < t.PaletteSizeY {
-				minBits := sh.ColorConfig.BitDepth - 1
+				minBits := sh.ColorConfig.BitDepth - 3
 				paletteNumExtraBitsY := literal.L(2, state, b, uh)
 				paletteBits = minBits + paletteNumExtraBitsY
 			}
-- 
2.43.0


From a5dfb35c745f3435bb965f01c9c33db7ba541b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:40 +0000
Subject: [PATCH 118/189] fix: cached colours of the U palette

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 52dc406..f5a2486 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -78,7 +78,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				usePaletteColorCacheU := literal.L(1, state, b, uh)
 
 				if util.Bool(usePaletteColorCacheU) {
-					t.PaletteColorsY[idx] = t.PaletteCache[i]
+					t.PaletteColorsU[idx] = t.PaletteCache[i]
 					idx++
 				}
 			}
-- 
2.43.0


From 80e5db88054cf7b651fa6ac43862403ee9050a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 119/189] fix: range of palette_delta_u

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index f5a2486..03aee40 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -98,7 +98,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 			for idx < t.PaletteSizeUV {
 				paletteDeltaU := literal.L(paletteBits, state, b, uh)
 				t.PaletteColorsU[idx] = util.Clip1(t.PaletteColorsU[idx-1]+paletteDeltaU, sh.ColorConfig.BitDepth)
-				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx] - 1
+				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx]
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-- 
2.43.0


From 66b2d405bc71130f05508b99822154178fcc86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 120/189] fix: palette of an unavailable block above

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 03aee40..4829125 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -144,7 +144,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 	aboveN := 0
 
-	if util.Bool((state.MiRow * MI_SIZE) % 64) {
+	if util.Bool((state.MiRow*MI_SIZE)%64) && state.AvailU {
 		aboveN = t.PaletteSizes[plane][state.MiRow-1][state.MiCol]
 	}
 
-- 
2.43.0


From 2e734fdf045e2751fac7e89042e9c425f888f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 121/189] fix: remaining colours of the palette to the left

---
 internal/tilegroup/palette.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 4829125..33315c4 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -187,5 +187,15 @@ func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 			n++
 		}
 	}
+
+	for leftIdx < leftN {
+		val := t.PaletteColors[plane][state.MiRow][state.MiCol-1][leftIdx]
+		leftIdx++
+		if n == 0 || val != t.PaletteCache[n-1] {
+			t.PaletteCache[n] = val
+			n++
+		}
+	}
+
 	return n
 }
-- 
2.43.0


From c2389417cf8b5ab6eb3c2474a66554066f80eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 122/189] fix: decode the palette's colour indices

---
 internal/tilegroup/decode_block.go   |  2 +-
 internal/tilegroup/palette_tokens.go | 53 +++++++++++++++++++++++++---
 internal/tilegroup/tile_group.go     |  1 +
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 330fd4c..a9aaa20 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -43,7 +43,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	}
 
 	t.modeInfo(b, uh, sh, state)
-	t.paletteTokens(b, state, sh)
+	t.paletteTokens(b, state, sh, uh)
 	t.readBlockTxSize(b, state, uh)
 
 	if util.Bool(t.Skip) {
diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 2e0c084..dec76c4 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -2,27 +2,30 @@ package tilegroup
 
 import (
 	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/literal"
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/symbol"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
 // palette_tokens()
-func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
 	blockHeight := shared.BLOCK_HEIGHT[state.MiSize]
 	blockWidth := shared.BLOCK_WIDTH[state.MiSize]
 	onscreenHeight := util.Min(blockHeight, (state.MiRows-state.MiRow)*MI_SIZE)
 	onscreenWidth := util.Min(blockWidth, (state.MiCols-state.MiCol)*MI_SIZE)
 
 	if util.Bool(t.PaletteSizeY) {
-		colorIndexMapY := b.Ns(t.PaletteSizeY)
+		colorIndexMapY := literal.NS(t.PaletteSizeY, state, b, uh)
 		t.ColorMapY[0][0] = colorIndexMapY
 
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
 				t.getPaletteColorContext(t.ColorMapY, (i - j), j, t.PaletteSizeY)
-				paletteColorIdxY := b.S()
+				paletteColorIdxY := symbol.ReadSymbol(paletteColorYCdf(t.PaletteSizeY, state)[Palette_Color_Context[t.ColorContextHash]], state, b, uh)
 				t.ColorMapY[i-j][j] = t.ColorOrder[paletteColorIdxY]
 			}
 		}
@@ -39,7 +42,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 
 	if util.Bool(t.PaletteSizeUV) {
-		colorIndexMapUv := b.Ns(t.PaletteSizeUV)
+		colorIndexMapUv := literal.NS(t.PaletteSizeUV, state, b, uh)
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
@@ -58,7 +61,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
 				t.getPaletteColorContext(t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
-				paletteColorIdxUv := b.S()
+				paletteColorIdxUv := symbol.ReadSymbol(paletteColorUVCdf(t.PaletteSizeUV, state)[Palette_Color_Context[t.ColorContextHash]], state, b, uh)
 				t.ColorMapUV[i-j][j] = t.ColorOrder[paletteColorIdxUv]
 			}
 		}
@@ -75,6 +78,46 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 }
 
+// cdf of palette_color_idx_y
+func paletteColorYCdf(n int, state *state.State) [][]int {
+	switch n {
+	case 2:
+		return state.TilePaletteSize2YColorCdf
+	case 3:
+		return state.TilePaletteSize3YColorCdf
+	case 4:
+		return state.TilePaletteSize4YColorCdf
+	case 5:
+		return state.TilePaletteSize5YColorCdf
+	case 6:
+		return state.TilePaletteSize6YColorCdf
+	case 7:
+		return state.TilePaletteSize7YColorCdf
+	default:
+		return state.TilePaletteSize8YColorCdf
+	}
+}
+
+// cdf of palette_color_idx_uv
+func paletteColorUVCdf(n int, state *state.State) [][]int {
+	switch n {
+	case 2:
+		return state.TilePaletteSize2UVColorCdf
+	case 3:
+		return state.TilePaletteSize3UVColorCdf
+	case 4:
+		return state.TilePaletteSize4UVColorCdf
+	case 5:
+		return state.TilePaletteSize5UVColorCdf
+	case 6:
+		return state.TilePaletteSize6UVColorCdf
+	case 7:
+		return state.TilePaletteSize7UVColorCdf
+	default:
+		return state.TilePaletteSize8UVColorCdf
+	}
+}
+
 // get_palette_color_context( colorMap, r, c, n )
 func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
 	var scores []int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index f9ce74d..e6e31c1 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -49,6 +49,7 @@ const UNIDIR_COMP_REFERENCE = 0
 const BIDIR_COMP_REFERENCE = 1
 
 var Palette_Color_Hash_Multipliers = []int{1, 2, 2}
+var Palette_Color_Context = []int{-1, -1, 0, -1, -1, 4, 3, 2, 1}
 
 var Mode_To_Angle = []int{0, 90, 180, 45, 135, 113, 157, 203, 67, 0, 0, 0, 0}
 
-- 
2.43.0


From eea6f7fd12c37d7138de29c34d7ff11f55ba96ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 123/189] fix: storage of the colour maps

---
 internal/tilegroup/palette_tokens.go | 8 ++++----
 internal/tilegroup/residual.go       | 4 ++--
 internal/tilegroup/tile_group.go     | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index dec76c4..ef08d69 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -24,7 +24,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
-				t.getPaletteColorContext(t.ColorMapY, (i - j), j, t.PaletteSizeY)
+				t.getPaletteColorContext(&t.ColorMapY, (i - j), j, t.PaletteSizeY)
 				paletteColorIdxY := symbol.ReadSymbol(paletteColorYCdf(t.PaletteSizeY, state)[Palette_Color_Context[t.ColorContextHash]], state, b, uh)
 				t.ColorMapY[i-j][j] = t.ColorOrder[paletteColorIdxY]
 			}
@@ -60,7 +60,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		}
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
-				t.getPaletteColorContext(t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
+				t.getPaletteColorContext(&t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
 				paletteColorIdxUv := symbol.ReadSymbol(paletteColorUVCdf(t.PaletteSizeUV, state)[Palette_Color_Context[t.ColorContextHash]], state, b, uh)
 				t.ColorMapUV[i-j][j] = t.ColorOrder[paletteColorIdxUv]
 			}
@@ -119,8 +119,8 @@ func paletteColorUVCdf(n int, state *state.State) [][]int {
 }
 
 // get_palette_color_context( colorMap, r, c, n )
-func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
-	var scores []int
+func (t *TileGroup) getPaletteColorContext(colorMap *[64][64]int, r int, c int, n int) {
+	var scores [PALETTE_COLORS]int
 	for i := 0; i < PALETTE_COLORS; i++ {
 		scores[i] = 0
 		t.ColorOrder[i] = i
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 704fbca..809758a 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -197,9 +197,9 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 	}
 
 	// map is a reserved keyword
-	var mapp [][]int
+	mapp := &t.ColorMapUV
 	if plane == 0 {
-		mapp = t.ColorMapY
+		mapp = &t.ColorMapY
 	}
 
 	for i := 0; i < h; i++ {
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index e6e31c1..39205f5 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -201,9 +201,9 @@ type TileGroup struct {
 
 	MaskType int
 
-	ColorMapY        [][]int
-	ColorMapUV       [][]int
-	ColorOrder       []int
+	ColorMapY        [64][64]int
+	ColorMapUV       [64][64]int
+	ColorOrder       [PALETTE_COLORS]int
 	ColorContextHash int
 
 	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-- 
2.43.0


From d27bf2e746c2b9d91aace8f94f8f9b558f73d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 124/189] fix: weight of the colour above

---
 internal/tilegroup/palette_tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index ef08d69..2e940cf 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -138,7 +138,7 @@ func (t *TileGroup) getPaletteColorContext(colorMap *[64][64]int, r int, c int,
 	}
 	if r > 0 {
 		neighbor = colorMap[r-1][c]
-		scores[neighbor] += 1
+		scores[neighbor] += 2
 	}
 
 	for i := 0; i < PALETTE_NUM_NEIGHBORS; i++ {
-- 
2.43.0


From aab10ede970bbe1939517dbabe40148c504ff317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 125/189] fix: height of the chroma colour map

---
 internal/tilegroup/palette_tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 2e940cf..25d252a 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -46,7 +46,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
-		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingX)
+		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		onscreenWidth = onscreenWidth >> util.Int(sh.ColorConfig.SubsamplingX)
 
 		if blockWidth < 4 {
-- 
2.43.0


From 931be44c50de90793d1283a1e3202f586bf1c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 126/189] fix: availability to the left for tx_depth

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index a05e8ec..99d89e5 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -74,7 +74,7 @@ func (t *TileGroup) txDepthSymbol(maxRectTxSize int, maxTxDepth int, state *stat
 	var leftH int
 	if state.AvailL && util.Bool(t.IsInters[state.MiRow][state.MiCol-1]) {
 		leftH = shared.BLOCK_HEIGHT[state.MiSizes[state.MiRow][state.MiCol-1]]
-	} else if state.AvailU {
+	} else if state.AvailL {
 		leftH = t.getLeftTxHeight(state.MiRow, state.MiCol, state)
 	} else {
 		leftH = 0
-- 
2.43.0


From 973f511c15e2429fe6b8db15d2e170f228c771de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 127/189] fix: left neighbours of a block's transforms

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 99d89e5..d93b001 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -106,7 +106,7 @@ func (t *TileGroup) getAboveTxWidth(row int, col int, state *state.State) int {
 }
 
 func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
-	if row == state.MiCol {
+	if col == state.MiCol {
 		if !state.AvailL {
 			return 64
 		} else if util.Bool(t.Skips[row][col-1]) && util.Bool(t.IsInters[row][col-1]) {
-- 
2.43.0


From 683008d352af129ab3cd1f2ef9cba277420fd813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 128/189] fix: when tx_depth is coded

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index d93b001..1fced08 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -29,7 +29,7 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 			}
 		}
 	} else {
-		t.readTxSize(!util.Bool(t.Skip) || util.Bool(t.IsInter), b, state, uh)
+		t.readTxSize(!util.Bool(t.Skip) || !util.Bool(t.IsInter), b, state, uh)
 		for row := state.MiRow; row < state.MiRow+bh4; row++ {
 			for col := state.MiCol; col < state.MiCol+bw4; col++ {
 				t.InterTxSizes[row][col] = t.TxSize
-- 
2.43.0


From 01b0c8f5d008d9b90d61bc93227fdf0b3852b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:20 +0000
Subject: [PATCH 129/189] fix: transform sizes kept of an inter block

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 1fced08..d0d19b7 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -145,7 +145,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	} else {
 		for i := 0; i < h4; i++ {
 			for j := 0; j < w4; j++ {
-				t.InterTxSizes[row+i][col+i] = txSz
+				t.InterTxSizes[row+i][col+j] = txSz
 			}
 		}
 		t.TxSize = txSz
-- 
2.43.0


From e7db38886a0c54e6e116bf8bfb19bc9960a328ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:21 +0000
Subject: [PATCH 130/189] fix: decode txfm_split

---
 internal/tilegroup/tx_size.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index d0d19b7..893eb11 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -25,7 +25,7 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 
 		for row := state.MiRow; row < state.MiRow+bh4; row += txH4 {
 			for col := state.MiCol; col < state.MiCol+bw4; col += txW4 {
-				t.readVarTxSize(row, col, maxTxSz, 0, b, state)
+				t.readVarTxSize(row, col, maxTxSz, 0, b, state, uh)
 			}
 		}
 	} else {
@@ -117,7 +117,7 @@ func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
 }
 
 // read_var_tx_size( row, col, txSz, depth )
-func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bitstream.BitStream, state *state.State) {
+func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader) {
 	if row >= state.MiRows || col >= state.MiCols {
 		return
 	}
@@ -126,7 +126,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	if txSz == TX_4X4 || depth == MAX_VARTX_DEPTH {
 		txfmSplit = 0
 	} else {
-		txfmSplit = b.S()
+		txfmSplit = t.txfmSplitSymbol(row, col, txSz, state, b, uh)
 	}
 
 	w4 := Tx_Width[txSz] / MI_SIZE
@@ -139,7 +139,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 
 		for i := 0; i < h4; i += stepH {
 			for j := 0; j < w4; j += stepW {
-				t.readVarTxSize(row+i, col+j, subTxSz, depth+1, b, state)
+				t.readVarTxSize(row+i, col+j, subTxSz, depth+1, b, state, uh)
 			}
 		}
 	} else {
@@ -152,6 +152,17 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	}
 }
 
+func (t *TileGroup) txfmSplitSymbol(row int, col int, txSz int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	above := util.Int(t.getAboveTxWidth(row, col, state) < Tx_Width[txSz])
+	left := util.Int(t.getLeftTxHeight(row, col, state) < Tx_Height[txSz])
+	size := util.Min(64, util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]))
+	maxTxSz := findTxSize(size, size)
+	ctx := util.Int(TX_SIZE_SQR_UP[txSz] != maxTxSz)*3 + (TX_SIZES-1-maxTxSz)*6 + above + left
+
+	return symbol.ReadSymbol(state.TileTxfmSplitCdf[ctx], state, b, uh)
+}
+
+const TX_SIZES = 5
 const MAX_VARTX_DEPTH = 2
 
 const TX_4X4 = 0
-- 
2.43.0


From cc1d0f246ddfd2ea85a1d100686dbdb5005ea89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 131/189] fix: restoration units of luma are not subsampled

---
 internal/tilegroup/read_loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index bf28edb..2a9a15a 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -25,11 +25,11 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 			subX := 0
 			subY := 0
 
-			if sh.ColorConfig.SubsamplingX {
+			if plane > 0 && sh.ColorConfig.SubsamplingX {
 				subX = 1
 			}
 
-			if sh.ColorConfig.SubsamplingY {
+			if plane > 0 && sh.ColorConfig.SubsamplingY {
 				subY = 1
 			}
 
-- 
2.43.0


From 5755b445f696e984e8a9e097eeee68beed9a52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 132/189] fix: decode use_wiener and use_sgrproj

---
 internal/tilegroup/read_loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 2a9a15a..fb03ea9 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -64,13 +64,13 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
 	var restorationType int
 	if uh.FrameRestorationType[plane] == shared.RESTORE_WIENER {
-		useWiener := b.S()
+		useWiener := symbol.ReadSymbol(state.TileUseWienerCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useWiener == 1 {
 			restorationType = shared.RESTORE_WIENER
 		}
 	} else if uh.FrameRestorationType[plane] == shared.RESTORE_SGRPROJ {
-		useSgrproj := b.S()
+		useSgrproj := symbol.ReadSymbol(state.TileUseSgrprojCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useSgrproj == 1 {
 			restorationType = shared.RESTORE_SGRPROJ
-- 
2.43.0


From 519e30029e2f0c426b1d7754e740ec28e6900e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 133/189] fix: Wiener coefficients of the V plane

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index fb03ea9..68346bb 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -84,7 +84,7 @@ func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state
 	if restorationType == shared.RESTORE_WIENER {
 		for pass := 0; pass < 2; pass++ {
 			var firstCoeff int
-			if plane == 1 {
+			if plane > 0 {
 				firstCoeff = 1
 				t.LrWiener[plane][unitRow][unitCol][pass][0] = 0
 			} else {
-- 
2.43.0


From 5e2801587887745d6c36a384057e0f88d65fb594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 134/189] fix: decode_subexp_bool

---
 internal/tilegroup/read_loop_restoration.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 68346bb..aaa774d 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -145,14 +145,14 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 	mk := 0
 	for {
 		b2 := k
-		if i == 1 {
+		if i != 0 {
 			b2 = k + i - 1
 		}
 
 		a := 1 << b2
 
-		if numSyms <= -mk+3*a {
-			subexpUnifBools := literal.L(1, state, b, uh)
+		if numSyms <= mk+3*a {
+			subexpUnifBools := literal.NS(numSyms-mk, state, b, uh)
 			return subexpUnifBools + mk
 		} else {
 			subexpMoreBools := literal.L(1, state, b, uh) != 0
-- 
2.43.0


From f9f708394437237f8bb6ff3e85626a1ccbf12b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 135/189] fix: storage of loop restoration units

---
 internal/tilegroup/tile_group.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 39205f5..31357ed 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -124,12 +124,12 @@ const DIV_LUT_PREC_BITS = 13
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-	LrType              [3][1][1]int
+	LrType              [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	RefLrWiener         [3][2][3]int
-	LrWiener            [][][][][3]int
-	LrSgrSet            [3][1][1]int
+	LrWiener            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2][3]int
+	LrSgrSet            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	RefSgrXqd           [3][2]int
-	LrSgrXqd            [3][1][1][2]int
+	LrSgrXqd            [3][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	HasChroma           bool
 	SegmentId           int
 	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-- 
2.43.0


From 6105e9d8386842e54aca10e2dee016e4aa175a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 136/189] fix: storage of frames

---
 internal/state/state.go                   | 44 ++++++++++++++++++++---
 internal/tilegroup/cdef.go                |  1 +
 internal/tilegroup/decode_frame_wrapup.go | 14 ++++----
 internal/tilegroup/loop_restoration.go    |  2 +-
 internal/tilegroup/output.go              | 21 +++++++++--
 internal/tilegroup/predict_inter.go       |  6 ++--
 internal/tilegroup/tile_group.go          | 13 ++++---
 7 files changed, 78 insertions(+), 23 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 3f48eb6..72e59b0 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -67,7 +67,7 @@ type State struct {
 	RefBitDepth            [shared.NUM_REF_FRAMES]int
 	RefUpscaledWidth       [8]int
 	SavedOrderHints        [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
-	CurrFrame              [3][16][16]int
+	CurrFrame              [3][][]int
 	SymbolMaxBits          int
 	SymbolValue            int
 	SymbolRange            int
@@ -75,10 +75,11 @@ type State struct {
 	Skip                   int
 	IsInter                int
 	CdefSize4              int
-	CdefFrame              [3][16][16]int
-	UpscaledCurrFrame      [3][9][9]int
-	UpscaledCdefFrame      [3][9][9]int
-	LrFrame                [3][9][9]int
+	CdefFrame              [3][][]int
+	UpscaledCurrFrame      [3][][]int
+	UpscaledCdefFrame      [3][][]int
+	LrFrame                [3][][]int
+	FrameStore             [shared.NUM_REF_FRAMES][3][][]int
 	TileIntraFrameYModeCdf [][][]int
 	MfMvs                  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	SavedMvs               [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
@@ -524,3 +525,36 @@ type MemoryArea struct {
 	UseSgrprojCdf      []int
 	RestorationTypeCdf []int
 }
+
+// NewCurrFrame makes room for the frame that is decoded, with the whole of all blocks at its edges
+func (s *State) NewCurrFrame() {
+	cols := (s.MiCols + shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128] - 1) / shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_128X128]
+	rows := (s.MiRows + shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128] - 1) / shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_128X128]
+	s.CurrFrame = s.NewFrame(cols*shared.BLOCK_WIDTH[shared.BLOCK_128X128], rows*shared.BLOCK_HEIGHT[shared.BLOCK_128X128])
+}
+
+// CopyFrame returns a copy of the samples of the planes of a frame
+func (s *State) CopyFrame(frame [3][][]int) [3][][]int {
+	for plane := range frame {
+		rows := make([][]int, len(frame[plane]))
+		for y := range rows {
+			rows[y] = append([]int(nil), frame[plane][y]...)
+		}
+		frame[plane] = rows
+	}
+
+	return frame
+}
+
+// NewFrame returns room for the samples of the planes of a frame
+func (s *State) NewFrame(width int, height int) [3][][]int {
+	var frame [3][][]int
+	for plane := range frame {
+		frame[plane] = make([][]int, height)
+		for y := range frame[plane] {
+			frame[plane][y] = make([]int, width)
+		}
+	}
+
+	return frame
+}
diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 189cbd7..14cea31 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -10,6 +10,7 @@ import (
 
 // 7.15. CDEF process
 func (t *TileGroup) cdefProcess(state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
+	state.CdefFrame = state.CopyFrame(state.CurrFrame)
 	step4 := shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_8X8]
 	cdefSize4 := shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64]
 	cdefMask4 := ^(cdefSize4 - 1)
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 7bbd167..f7258c4 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -9,8 +9,8 @@ import (
 )
 
 // 7.16 Upscaling process
-func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][9][9]int {
-	var outputFrame [3][9][9]int
+func (t *TileGroup) upscalingProcess(inputFrame [3][][]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][][]int {
+	outputFrame := state.NewFrame(uh.UpscaledWidth, uh.FrameHeight)
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
 		if plane > 0 {
@@ -124,16 +124,17 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				state.SavedOrderHints[i][j+shared.LAST_FRAME] = uh.OrderHints[j+shared.LAST_FRAME]
 			}
 
+			state.FrameStore[i] = state.NewFrame(uh.UpscaledWidth, uh.FrameHeight)
 			for x := 0; x < uh.UpscaledWidth; x++ {
 				for y := 0; y < uh.FrameHeight; y++ {
-					t.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
+					state.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
 				}
 			}
 
 			for plane := 1; plane <= 2; plane++ {
 				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
 					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
-						t.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
+						state.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
 					}
 				}
 			}
@@ -223,16 +224,17 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.OrderHints[j+shared.LAST_FRAME] = state.SavedOrderHints[u.FrameToShowMapIdx][j+shared.LAST_FRAME]
 	}
 
+	state.LrFrame = state.NewFrame(u.UpscaledWidth, u.FrameHeight)
 	for x := 0; x < u.UpscaledWidth; x++ {
 		for y := 0; y < u.FrameHeight; y++ {
-			state.LrFrame[0][y][x] = t.FrameStore[u.FrameToShowMapIdx][0][y][x]
+			state.LrFrame[0][y][x] = state.FrameStore[u.FrameToShowMapIdx][0][y][x]
 		}
 	}
 
 	for plane := 1; plane <= 2; plane++ {
 		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
 			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
-				state.LrFrame[plane][y][x] = t.FrameStore[u.FrameToShowMapIdx][plane][y][x]
+				state.LrFrame[plane][y][x] = state.FrameStore[u.FrameToShowMapIdx][plane][y][x]
 			}
 		}
 	}
diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index a4d4e0e..121179b 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -10,7 +10,7 @@ import (
 
 // 7.17. Loop restoration process
 func (t *TileGroup) loopRestoration(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	state.LrFrame = state.UpscaledCdefFrame
+	state.LrFrame = state.CopyFrame(state.UpscaledCdefFrame)
 
 	if !uh.UsesLr {
 		return
diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 1588c50..ef4ffc8 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -29,21 +29,24 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 		subX := state.RefSubsamplingX[uh.FrameToShowMapIdx]
 		subY := state.RefSubsamplingY[uh.FrameToShowMapIdx]
 
+		t.OutY = newPlane(w, h)
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
-				t.OutY[y][x] = t.FrameStore[uh.FrameToShowMapIdx][0][y][x]
+				t.OutY[y][x] = state.FrameStore[uh.FrameToShowMapIdx][0][y][x]
 			}
 		}
 
+		t.OutU = newPlane((w+subX)>>subX, (h+subY)>>subY)
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = t.FrameStore[uh.FrameToShowMapIdx][1][x][y]
+				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][x][y]
 			}
 		}
 
+		t.OutV = newPlane((w+subX)>>subX, (h+subY)>>subY)
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = t.FrameStore[uh.FrameToShowMapIdx][2][x][y]
+				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][x][y]
 			}
 		}
 
@@ -55,18 +58,21 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 		subX := util.Int(sh.ColorConfig.SubsamplingX)
 		subY := util.Int(sh.ColorConfig.SubsamplingY)
 
+		t.OutY = newPlane(w, h)
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
 				t.OutY[y][x] = state.LrFrame[0][y][x]
 			}
 		}
 
+		t.OutU = newPlane((w+subX)>>subX, (h+subY)>>subY)
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
 				t.OutU[y][x] = state.LrFrame[1][y][x]
 			}
 		}
 
+		t.OutV = newPlane((w+subX)>>subX, (h+subY)>>subY)
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
 				t.OutV[y][x] = state.LrFrame[2][y][x]
@@ -77,6 +83,15 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 	return w, h, subX, subY
 }
 
+func newPlane(w int, h int) [][]int {
+	plane := make([][]int, h)
+	for y := range plane {
+		plane[y] = make([]int, w)
+	}
+
+	return plane
+}
+
 // 7.18.3. Film grain syntehsis
 func (t *TileGroup) filmGrainSynthesis(w int, h int, subX int, subY int) {
 	panic("not implemented")
diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index d2f9a89..15dc617 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -251,11 +251,11 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var ref [3][16][16]int
+	var ref [3][][]int
 	if refIdx == -1 {
 		ref = state.CurrFrame
 	} else {
-		ref = t.FrameStore[refIdx]
+		ref = state.FrameStore[refIdx]
 	}
 
 	subX := 0
@@ -320,7 +320,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	var pred [PRED_SIZE][PRED_SIZE]int
 
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
-	ref := t.FrameStore[refIdx]
+	ref := state.FrameStore[refIdx]
 
 	subX := 0
 	subY := 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 31357ed..c0159c6 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -234,8 +234,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	FrameStore [shared.NUM_REF_FRAMES][3][16][16]int
-	Mask       [][]int
+	Mask [][]int
 
 	FwdWeight int
 	BckWeight int
@@ -264,9 +263,9 @@ type TileGroup struct {
 	PlaneEndX    int
 	PlaneEndY    int
 
-	OutY [1][1]int
-	OutU [1][1]int
-	OutV [1][1]int
+	OutY [][]int
+	OutU [][]int
+	OutV [][]int
 }
 
 func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
@@ -302,6 +301,10 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 	headerBytes := (endBitBos - startbitPos) / 8
 	sz -= headerBytes
 
+	if tgStart == 0 {
+		state.NewCurrFrame()
+	}
+
 	for state.TileNum = tgStart; state.TileNum <= tgEnd; state.TileNum++ {
 		tileRow := state.TileNum / state.TileCols
 		tileCol := state.TileNum % state.TileCols
-- 
2.43.0


From a8340d1692febe69458944c139753d05f15cce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:13 +0000
Subject: [PATCH 137/189] fix: size of intra prediction

---
 internal/tilegroup/predict_intra.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b026a4c..3f4abe9 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -86,7 +86,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 
 	t.LeftCol[len(t.LeftCol)-1] = t.AboveRow[len(t.AboveRow)-1]
 
-	var pred [15][15]int
+	var pred [64][64]int
 	if plane == 0 && t.UseFilterIntra {
 		pred = t.recursiveIntraPredictionProcess(w, h, sh)
 	} else if t.isDirectionalMode(mode) {
@@ -107,8 +107,8 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 }
 
 // 7.11.2.2 Basic intra prediction process
-func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [64][64]int {
+	var pred [64][64]int
 
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
@@ -131,10 +131,10 @@ func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
 }
 
 // 7.11.2.3. Recursive intra prediction process
-func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
+func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
 	w4 := w >> 2
 	h2 := h >> 1
-	var pred [15][15]int
+	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
 			var p []int
@@ -175,8 +175,8 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 }
 
 // 7.11.2.4. Directional intra prediction process
-func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 
 	angleDelta := t.AngleDeltaUV
 	if plane == 0 {
@@ -325,8 +325,8 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 }
 
 // 7.11.2.5 DC intra prediction process
-func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 	if haveLeft && haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
@@ -367,8 +367,8 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 }
 
 // 7.11.2.6 Smooth intra prediction process
-func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [64][64]int {
+	var pred [64][64]int
 	if mode == SMOOTH_PRED {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From 68f53de9a36582f729fa85a377077268e608bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 138/189] fix: edges of intra prediction

---
 internal/tilegroup/predict_intra.go | 44 +++++++----------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 3f4abe9..cf24d8e 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -15,23 +15,14 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 	maxX := (state.MiCols * MI_SIZE) - 1
 	maxY := (state.MiRows * MI_SIZE) - 1
 
-	yMinusOne := y
-	if y-1 == -1 {
-		yMinusOne = len(state.CurrFrame[plane]) - 1
-	}
-
 	if plane > 0 {
 		maxX = ((state.MiCols * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingX)) - 1
 		maxY = ((state.MiRows * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingY)) - 1
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 1 {
-			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
-			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][y][x-1]
-			}
+			t.AboveRow[i] = state.CurrFrame[plane][y][x-1]
 		} else if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 0 {
 			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) - 1
 
@@ -40,46 +31,31 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 			if haveAboveRight {
 				aboveLimit = util.Min(maxX, x+2*w-1)
 			}
-			t.AboveRow[i] = state.CurrFrame[plane][yMinusOne][util.Min(aboveLimit, x+i)]
+			t.AboveRow[i] = state.CurrFrame[plane][y-1][util.Min(aboveLimit, x+i)]
 		}
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
-			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
+			t.LeftCol[i] = state.CurrFrame[plane][y-1][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
+			t.LeftCol[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
 
 		} else {
 			leftLimit := util.Min(maxY, y+h-1)
 			if haveBelowLeft {
 				leftLimit = util.Min(maxY, y+2*h-1)
 			}
-
-			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
-			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
-			}
+			t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
 		}
 	}
 
 	if util.Int(haveAbove) == 1 && util.Int(haveLeft) == 1 {
-		if x-1 == -1 {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][len(state.CurrFrame[plane][y-1])-1]
-		} else {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][x-1]
-		}
+		t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y-1][x-1]
 	} else if util.Int(haveAbove) == 1 {
-		t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][x]
+		t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y-1][x]
 	} else if util.Int(haveLeft) == 1 {
-		if x-1 == -1 {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
-		} else {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y][x-1]
-
-		}
-
+		t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][y][x-1]
 	} else {
 		t.AboveRow[len(t.AboveRow)-1] = 1 << (sh.ColorConfig.BitDepth - 1)
 	}
-- 
2.43.0


From ad59479cefe2081cf04cf46bcb9156de12c0a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 139/189] fix: recursive intra prediction

---
 internal/tilegroup/predict_intra.go | 15 ++++++++++++---
 internal/tilegroup/tile_group.go    |  5 +++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index cf24d8e..1d3a2da 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -113,11 +113,11 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
-			var p []int
+			var p [7]int
 			for i := 0; i <= 6; i++ {
 				if i < 5 {
 					if i2 == 0 {
-						p[i] = t.AboveRow[(j4<<2)+i-1]
+						p[i] = t.AboveRow[edgeIndex((j4<<2)+i-1)]
 					} else if j4 == 0 && i == 0 {
 						p[i] = t.LeftCol[(i2<<1)-1]
 					} else {
@@ -150,6 +150,15 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 	return pred
 }
 
+// position in AboveRow or LeftCol, what comes before the first sample is kept at the end
+func edgeIndex(i int) int {
+	if i < 0 {
+		return EDGE_SIZE + i
+	}
+
+	return i
+}
+
 // 7.11.2.4. Directional intra prediction process
 func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [64][64]int {
 	var pred [64][64]int
@@ -561,7 +570,7 @@ func (t *TileGroup) intraEdgeUpsampleSelectionProcess(w int, h int, filterType i
 
 // 7.11.2.11 Intra edge upsample process
 func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequenceheader.SequenceHeader) {
-	var buf *[32768]int
+	var buf *[EDGE_SIZE]int
 	if !dir {
 		buf = &t.AboveRow
 	} else {
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c0159c6..18d229a 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -26,6 +26,7 @@ const MAX_SB_SIZE = 128
 const MAX_FRAME_DISTANCE = 31
 
 const INTRA_EDGE_TAPS = 5
+const EDGE_SIZE = 32768
 const SUBPEL_BITS = 4
 const SCALE_SUBPEL_BITS = 10
 const SUBPEL_MASK = 15
@@ -224,8 +225,8 @@ type TileGroup struct {
 	IsInterIntra bool
 
 	// source: gpt3.5
-	AboveRow [32768]int
-	LeftCol  [32768]int
+	AboveRow [EDGE_SIZE]int
+	LeftCol  [EDGE_SIZE]int
 
 	InterRound0    int
 	InterRound1    int
-- 
2.43.0


From 736e6f003376115c7059f179c0b63991e8753b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 140/189] fix: directional intra prediction from above

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 1d3a2da..99e48a8 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -245,7 +245,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	if pAngle < 90 {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				idx := (i + i) * dx
+				idx := (i + 1) * dx
 				base := (idx >> (6 - util.Int(upsampleAbove))) + (j << util.Int(upsampleAbove))
 				shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
 				maxBaseX := (w + h - 1) << util.Int(upsampleAbove)
-- 
2.43.0


From 49dc1d6feff9e85f52312e5f299d5bfe1ff8538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:18 +0000
Subject: [PATCH 141/189] fix: directional intra prediction across the corner

---
 internal/tilegroup/predict_intra.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 99e48a8..0d12412 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -266,18 +266,13 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 
 				if base >= -(1 << util.Int(upsampleAbove)) {
 					shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
-					pred[i][j] = util.Round2(t.AboveRow[base]*(32-shift)+t.AboveRow[base+1]*shift, 5)
+					pred[i][j] = util.Round2(t.AboveRow[edgeIndex(base)]*(32-shift)+t.AboveRow[edgeIndex(base+1)]*shift, 5)
 				} else {
 					idx = (i << 6) - (j+1)*dy
 					base = idx >> (6 - util.Int(upsampleLeft))
 					shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 
-					// handle negative indezes
-					if base < 0 {
-						pred[i][j] = util.Round2(t.LeftCol[len(t.LeftCol)+base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					} else {
-						pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					}
+					pred[i][j] = util.Round2(t.LeftCol[edgeIndex(base)]*(32-shift)+t.LeftCol[edgeIndex(base+1)]*shift, 5)
 				}
 			}
 		}
-- 
2.43.0


From b14394c1949dc40aff8aeaac389a39dfa1891615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 142/189] fix: directional intra prediction from the left

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 0d12412..8269ed6 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -281,7 +281,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
 				idx := (j + 1) * dy
-				base := (idx >> (6 >> util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
+				base := (idx >> (6 - util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
 				shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 				pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
 			}
-- 
2.43.0


From 633ce4d1382e761ddac7a79fae9864139dbcdc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 143/189] fix: horizontal intra prediction

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 8269ed6..88d0f2e 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -296,7 +296,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	} else if pAngle == 180 {
 		for j := 0; j < w; j++ {
 			for i := 0; i < h; i++ {
-				pred[i][j] = t.LeftCol[j]
+				pred[i][j] = t.LeftCol[i]
 			}
 		}
 	}
-- 
2.43.0


From 28b3ad2c40f8eeaa3fa017bc684327e809387c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 144/189] fix: average of the edge above

---
 internal/tilegroup/predict_intra.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 88d0f2e..d050ce8 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -334,6 +334,17 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 			}
 		}
 
+	} else if !haveLeft && haveAbove {
+		for i := 0; i < h; i++ {
+			for j := 0; j < w; j++ {
+				sum := 0
+				for k := 0; k < w; k++ {
+					sum += t.AboveRow[k]
+				}
+				aboveAvg := util.Clip1((sum+(w>>1))>>log2W, sh.ColorConfig.BitDepth)
+				pred[i][j] = aboveAvg
+			}
+		}
 	} else if !haveLeft && !haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From 87ce32b85622c43e500c570942c8742926ab9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 145/189] fix: smoothness of neighbours

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index d050ce8..aaea351 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -463,7 +463,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 		c := state.MiCol
 
 		if plane > 0 {
-			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
+			if sh.ColorConfig.SubsamplingX && !util.Bool(state.MiCol&1) {
 				c++
 			}
 			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
@@ -486,11 +486,11 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
 				c--
 			}
-			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
+			if sh.ColorConfig.SubsamplingY && !util.Bool(state.MiRow&1) {
 				r++
 			}
 		}
-		aboveSmooth = t.isSmooth(r, c, plane, state)
+		leftSmooth = t.isSmooth(r, c, plane, state)
 	}
 
 	return aboveSmooth || leftSmooth
-- 
2.43.0


From 3f00ccc39abde0ac48e64b513697acbe4a09adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 146/189] fix: strength of intra edge filters

---
 internal/tilegroup/predict_intra.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index aaea351..e2adcba 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -512,6 +512,10 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 				strength = 1
 			}
 		} else if blkWh <= 16 {
+			if d >= 40 {
+				strength = 1
+			}
+		} else if blkWh <= 24 {
 			if d >= 8 {
 				strength = 1
 			}
@@ -526,9 +530,11 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 			if d >= 4 {
 				strength = 2
 			}
-			if d >= 4 {
+			if d >= 32 {
 				strength = 3
 			}
+		} else {
+			strength = 3
 		}
 	} else {
 		if blkWh <= 8 {
-- 
2.43.0


From 22adf81bc3a5abd27a66946cbac8e1e189ec16d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 147/189] fix: upsampling of intra edges

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e2adcba..e740209 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -589,10 +589,10 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 		buf = &t.LeftCol
 	}
 
-	var dup []int
+	dup := make([]int, numPx+3)
 	dup[0] = buf[len(buf)-1]
 	for i := -1; i < numPx; i++ {
-		dup[i+2] = buf[i]
+		dup[i+2] = buf[edgeIndex(i)]
 	}
 	dup[numPx+2] = buf[numPx-1]
 
@@ -600,7 +600,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 	for i := 0; i < numPx; i++ {
 		s := -dup[i] + (9 * dup[i+1]) + (9 * dup[i+2]) - dup[i+3]
 		s = util.Clip1(util.Round2(s, 4), sh.ColorConfig.BitDepth)
-		buf[2*i-1] = s
+		buf[edgeIndex(2*i-1)] = s
 		buf[2*i] = dup[i+2]
 	}
 }
-- 
2.43.0


From 7b73eb2303d47399a9b2de3d26a6c5a5d865d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:27 +0000
Subject: [PATCH 148/189] fix: filter of intra edges

---
 internal/tilegroup/predict_intra.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e740209..d138c10 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -187,7 +187,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle < 90 {
 					sumPart = h
 				}
-				numPx := util.Min(w, (maxX-x+1)) + sumPart
+				numPx := util.Min(w, (maxX-x+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 0)
 			}
 
@@ -197,7 +197,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle > 180 {
 					sumPart = w
 				}
-				numPx := util.Min(h, (maxY-y+1)) + sumPart
+				numPx := util.Min(h, (maxY-y+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 1)
 			}
 		}
@@ -611,26 +611,26 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 		return
 	}
 
-	var edge []int
+	edge := make([]int, sz)
 	for i := 0; i < sz; i++ {
 		if util.Bool(left) {
-			edge[i] = t.LeftCol[i-1]
+			edge[i] = t.LeftCol[edgeIndex(i-1)]
 		} else {
-			edge[i] = t.AboveRow[i-1]
+			edge[i] = t.AboveRow[edgeIndex(i-1)]
 		}
 	}
 
-	for i := 0; i < sz; i++ {
+	for i := 1; i < sz; i++ {
 		s := 0
 		for j := 0; j < INTRA_EDGE_TAPS; j++ {
-			k := util.Clip3(0, sz-12, i-2+j)
+			k := util.Clip3(0, sz-1, i-2+j)
 			s += Intra_Edge_Kernel[strength-1][j] * edge[k]
-			if left == 1 {
-				t.LeftCol[i-1] = (s + 8) >> 4
-			}
-			if left == 0 {
-				t.AboveRow[i-1] = (s + 8) >> 4
-			}
+		}
+		if left == 1 {
+			t.LeftCol[i-1] = (s + 8) >> 4
+		}
+		if left == 0 {
+			t.AboveRow[i-1] = (s + 8) >> 4
 		}
 	}
 }
-- 
2.43.0


From 91afbedb6739c317e12c0fc318c8b683be805ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:56 +0000
Subject: [PATCH 149/189] fix: column of transform blocks

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 809758a..f8d1f1a 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -94,7 +94,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	row := (startY << subY) >> shared.MI_SIZE_LOG2
-	col := (startY << subY) >> shared.MI_SIZE_LOG2
+	col := (startX << subX) >> shared.MI_SIZE_LOG2
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-- 
2.43.0


From 179746b93a654b41a154767c677a6d0d4d23f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 150/189] fix: position of transform blocks in 128x128
 superblocks

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index f8d1f1a..05cfc6a 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -98,7 +98,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-		sbMask = 21
+		sbMask = 31
 	}
 
 	subBlockMiRow := row & sbMask
-- 
2.43.0


From 425296e627efc6af1b79957dc15492bbeef2d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:58 +0000
Subject: [PATCH 151/189] fix: availability for intra prediction of planes

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 05cfc6a..74ac1cf 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -132,7 +132,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 			conditionL := state.AvailL
 			conditionU := state.AvailU
-			if plane == 0 {
+			if plane > 0 {
 				conditionL = state.AvailLChroma
 				conditionU = state.AvailUChroma
 			}
-- 
2.43.0


From f156aa63e6e613f84e24b2af6ac3830a323efd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 152/189] fix: width of what a transform block leaves

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 74ac1cf..8d25051 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -175,8 +175,8 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	for i := 0; i < stepY; i++ {
-		for j := 0; j < stepY; j++ {
-			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
+		for j := 0; j < stepX; j++ {
+			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX)+j] = txSz
 			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i+1][(subBlockMiCol>>subX)+j+1] = true
 		}
 	}
-- 
2.43.0


From 8cd4ef4a440e3d273bc917c5bd9cfd316e51fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:00 +0000
Subject: [PATCH 153/189] fix: chunks of blocks wider or higher than 64

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 8d25051..dbe199c 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -11,8 +11,8 @@ import (
 
 // residual( )
 func (t *TileGroup) residual(sh sequenceheader.SequenceHeader, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
-	widthChunks := util.Max(1, state.BlockWidth[state.MiSize]>>6)
-	heightChunks := util.Max(1, state.BlockHeight[state.MiSize]>>6)
+	widthChunks := util.Max(1, shared.BLOCK_WIDTH[state.MiSize]>>6)
+	heightChunks := util.Max(1, shared.BLOCK_HEIGHT[state.MiSize]>>6)
 
 	miSizeChunk := state.MiSize
 	if widthChunks > 1 || heightChunks > 1 {
-- 
2.43.0


From 5d73ad7e134c7222f1f8db4abea5971b9787bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 154/189] fix: weight of chroma from luma

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index dbe199c..308ee5b 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -216,7 +216,7 @@ func (t *TileGroup) predictChromaFromLuma(plane int, startX int, startY int, txS
 	subX := util.Int(sh.ColorConfig.SubsamplingX)
 	subY := util.Int(sh.ColorConfig.SubsamplingY)
 	var alpha int
-	if plane == 0 {
+	if plane == 1 {
 		alpha = t.CflAlphaU
 	} else {
 		alpha = t.CflAlphaV
-- 
2.43.0


From 0baa4d86c9391cd4ba2f0bcb63c52c9dd402c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 155/189] fix: inter prediction of chroma of small blocks

---
 internal/tilegroup/compute_prediction.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 83792a2..d5b7b72 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -77,11 +77,13 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				candCol = state.MiCol
 			}
 			r := 0
-			for y := 0; y < num4x4H; y += predH {
+			for y := 0; y < num4x4H*4; y += predH {
 				c := 0
-				for x := 0; x < num4x4W; x += predW {
+				for x := 0; x < num4x4W*4; x += predW {
 					t.predictInter(plane, baseX+x, baseY+y, predW, predH, candRow+r, candCol+c, state, uh, sh)
+					c++
 				}
+				r++
 			}
 		}
 	}
-- 
2.43.0


From 59ee3e347ac6db0b87622e388a9cc2e82a5825e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 156/189] fix: steps between loop filter edges

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 96ee525..4769cc9 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane == 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+				if plane > 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
-- 
2.43.0


From 91ffee7d692c0f789696275133cc5074b35cf08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:43 +0000
Subject: [PATCH 157/189] fix: size of loop filters of horizontal edges

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 4769cc9..31b5998 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -132,7 +132,7 @@ func (t *TileGroup) filterSize(txSz int, prevTxSz int, pass bool, plane int) int
 	if !pass {
 		baseSize = util.Min(Tx_Width[prevTxSz], Tx_Width[txSz])
 	} else {
-		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[prevTxSz])
+		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[txSz])
 
 	}
 
-- 
2.43.0


From 223de63eb299890df3d88ca3e7d8a0680ab882c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:44 +0000
Subject: [PATCH 158/189] fix: level of an edge after a block of level 0

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 31b5998..6fac7e1 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -116,7 +116,7 @@ func (t *TileGroup) loopFilterEdge(plane int, pass bool, row int, col int, sh se
 	lvl, limit, blimit, thresh := t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 
 	if lvl == 0 {
-		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
+		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(prevRow, prevCol, plane, pass, state, uh)
 	}
 
 	for i := 0; i < MI_SIZE; i++ {
-- 
2.43.0


From 368975bd6a364bbc73f02e740f1a932dd478e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 159/189] fix: loop filter mode delta of GLOBAL_GLOBALMV

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 6fac7e1..6798dbe 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -150,7 +150,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	mode := t.YModes[row][col]
 
 	var modeType int
-	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV {
+	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV && mode != shared.GLOBAL_GLOBALMV {
 		modeType = 1
 	} else {
 		modeType = 0
-- 
2.43.0


From f2992a9b7b2190d7f755315c6ebd7adc3704d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 160/189] fix: limit of loop filters at low sharpness

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 6798dbe..e0a0dd9 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -173,7 +173,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	if uh.LoopFilterSharpness > 4 {
 		shift = 2
 	} else if uh.LoopFilterSharpness > 0 {
-		shift = 2
+		shift = 1
 	} else {
 		shift = 0
 	}
-- 
2.43.0


From 7bfdbff7b53b9fcc8ce6daeb7b16cb2aaf31fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 161/189] fix: storage of the wide loop filters

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index e0a0dd9..8d0cfde 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -371,7 +371,7 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 		n2 = 1
 	}
 
-	var F []int
+	var F [12]int
 	for i := -n; i < n; i++ {
 		t := 0
 		for j := -n; j <= n; j++ {
@@ -384,9 +384,9 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 			}
 			t += state.CurrFrame[plane][y+p*dy][x+p*dx] * tap
 		}
-		F[i] = util.Round2(t, log2Size)
+		F[n+i] = util.Round2(t, log2Size)
 	}
 	for i := -n; i < n; i++ {
-		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i]
+		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[n+i]
 	}
 }
-- 
2.43.0


From 4e9a90c036bd2ba72a4a15c0a586de62335c3b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 162/189] fix: samples looked at by loop filters

---
 internal/tilegroup/loop_filter_process.go | 35 ++++++++++++++---------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 8d0cfde..2d38cee 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -239,20 +239,27 @@ func (t *TileGroup) sampleFiltering(x int, y int, plane int, limit int, blimit i
 
 // 7.14.6.2 Filter mask process
 func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, thresh int, dx int, dy int, filterSize int, state *state.State, sh sequenceheader.SequenceHeader) (int, int, int, int) {
-	q0 := state.CurrFrame[plane][y][x]
-	q1 := state.CurrFrame[plane][y+dy][x+dx]
-	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
-	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
-	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
-	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
-	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
-	p0 := state.CurrFrame[plane][y-dy][x-dx]
-	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
-	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
-	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
-	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
-	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
-	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
+	// samples further away than the filter looks might not be there
+	sample := func(i int, size int) int {
+		if filterSize < size {
+			return 0
+		}
+		return state.CurrFrame[plane][y+dy*i][x+dx*i]
+	}
+	q0 := sample(0, 4)
+	q1 := sample(1, 4)
+	q2 := sample(2, 8)
+	q3 := sample(3, 8)
+	q4 := sample(4, 16)
+	q5 := sample(5, 16)
+	q6 := sample(6, 16)
+	p0 := sample(-1, 4)
+	p1 := sample(-2, 4)
+	p2 := sample(-3, 8)
+	p3 := sample(-4, 8)
+	p4 := sample(-5, 16)
+	p5 := sample(-6, 16)
+	p6 := sample(-7, 16)
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
-- 
2.43.0


From 9b3f4de32e254bd517d333f33f83075a88f9cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 163/189] fix: damping of CDEF of chroma

---
 internal/tilegroup/cdef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 14cea31..3c796ba 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -98,8 +98,8 @@ func (t *TileGroup) cdefBlock(r int, c int, idx int, state *state.State, sh sequ
 			dir = 0
 		} else {
 			dir = CDEF_UV_DIR[util.Int(sh.ColorConfig.SubsamplingX)][util.Int(sh.ColorConfig.SubsamplingY)][yDir]
-			damping = uh.CdefDampening + coeffShift - 1
 		}
+		damping = uh.CdefDampening + coeffShift - 1
 
 		t.cdefFilter(1, r, c, priStr, secStr, damping, dir, state, sh, uh)
 		t.cdefFilter(2, r, c, priStr, secStr, damping, dir, state, sh, uh)
-- 
2.43.0


From 646b88fe20a9e5ba583a44649e034ac785e8baa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:49 +0000
Subject: [PATCH 164/189] fix: taps of CDEF

---
 internal/tilegroup/cdef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 3c796ba..892149d 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -188,7 +188,7 @@ func (t *TileGroup) cdefFilter(plane int, r int, c int, priStr int, secStr int,
 	// "MiColStart, MiRowStart, MiColEnd, MiRowEnd are set equal to the values
 	// they had when the syntax element MiSizes[r][c] was written."
 
-	coeffShift := sh.ColorConfig.BitDepth
+	coeffShift := sh.ColorConfig.BitDepth - 8
 	var subX, subY int
 	if plane > 0 {
 		subX = util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From bc4b74fdac1e291bc587c928322550a717413d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 165/189] fix: frames that are not upscaled

---
 internal/tilegroup/decode_frame_wrapup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index f7258c4..c1e4dea 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -10,6 +10,10 @@ import (
 
 // 7.16 Upscaling process
 func (t *TileGroup) upscalingProcess(inputFrame [3][][]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][][]int {
+	if !uh.UseSuperRes {
+		return inputFrame
+	}
+
 	outputFrame := state.NewFrame(uh.UpscaledWidth, uh.FrameHeight)
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
-- 
2.43.0


From 114bced20a714cb2f8e304bc484bc378f6d793cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 166/189] fix: columns of loop restoration units

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 121179b..71ff542 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -51,7 +51,7 @@ func (t *TileGroup) loopRestoreBlock(plane int, row int, col int, state *state.S
 	unitCols := util.CountUnitsInFrame(unitSize, util.Round2(uh.UpscaledWidth, subX))
 
 	unitRow := util.Min(unitRows-1, ((row*MI_SIZE+8)>>subY)/unitSize)
-	unitCol := util.Min(unitCols-1, ((col*MI_SIZE+8)>>subX)/unitSize)
+	unitCol := util.Min(unitCols-1, ((col*MI_SIZE)>>subX)/unitSize)
 
 	t.PlaneEndX = util.Round2(uh.UpscaledWidth, subX) - 1
 	t.PlaneEndY = util.Round2(uh.FrameHeight, subY) - 1
-- 
2.43.0


From cc627ab2aa990e38e86bf862fd8dc0b1fa9d380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 167/189] fix: symmetry of Wiener filters

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 71ff542..8a2ba31 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -263,7 +263,7 @@ func (t *TileGroup) wienerCoefficient(coeff [3]int) [7]int {
 	for i := 0; i < 3; i++ {
 		c := coeff[i]
 		filter[i] = c
-		filter[6-1] = c
+		filter[6-i] = c
 		filter[3] -= 2 * c
 	}
 
-- 
2.43.0


From 4634cc805d4af6461d80cd65594609cf06230588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:24 +0000
Subject: [PATCH 168/189] fix: storage of the Wiener filter

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 8a2ba31..21511d0 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -233,7 +233,7 @@ func (tg *TileGroup) wienerFilter(plane int, unitRow int, unitCol int, x int, y
 	offset := (1 << (sh.ColorConfig.BitDepth + FILTER_BITS - tg.InterRound0 - 1))
 	limit := (1 << (sh.ColorConfig.BitDepth + 1 + FILTER_BITS - tg.InterRound0)) - 1
 
-	var intermediate [][]int
+	var intermediate [MI_SIZE + 6][MI_SIZE]int
 	for r := 0; r < h+6; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
-- 
2.43.0


From d7617ddc16af8bf8815a59683093553c466962db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:26 +0000
Subject: [PATCH 169/189] fix: storage of the box filter

---
 internal/tilegroup/loop_restoration.go | 43 ++++++--------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 21511d0..ab30bcf 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -104,11 +104,11 @@ func (t *TileGroup) selfGuidedFilter(plane int, unitRow int, unitCol int, x int,
 }
 
 // 7.17.3. Box filter process
-func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [1][1]int {
+func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [MI_SIZE][MI_SIZE]int {
 
 	r := SGR_PARAMS[set][util.Int(pass)*2+0]
 	if r == 0 {
-		return [1][1]int{}
+		return [MI_SIZE][MI_SIZE]int{}
 	}
 
 	eps := SGR_PARAMS[set][util.Int(pass)*2+1]
@@ -117,7 +117,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 	n2e := n * n * eps
 	s := (((1 << SGRPROJ_MTABLE_BITS) + n2e/2) / n2e)
 
-	var A, B [3][3]int
+	// one row and column more on each side
+	var A, B [MI_SIZE + 2][MI_SIZE + 2]int
 	for i := -1; i < h+1; i++ {
 		for j := -1; j < w+1; j++ {
 			a := 0
@@ -144,25 +145,12 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 			oneOverN := ((1 << SGRPROJ_RECIP_BITS) + (n / 2)) / n
 			b2 := ((1 << SGRPROJ_SGR_BITS) - a2) * b * oneOverN
 
-			// ugly negative indexing workaround
-			if i == -1 && j == -1 {
-				A[len(A)-1][len(A[len(A)-1])-1] = a2
-				B[len(B)-1][len(B[len(B)-1])-1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			} else if i == -1 {
-				A[len(A)-1][j] = a2
-				B[len(B)-1][j] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			} else if j == -1 {
-				A[i][len(A[i])-1] = a2
-				B[i][len(B[i])-1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-
-			} else {
-				A[i][j] = a2
-				B[i][j] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			}
+			A[i+1][j+1] = a2
+			B[i+1][j+1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
 		}
 	}
 
-	var F [1][1]int
+	var F [MI_SIZE][MI_SIZE]int
 	for i := 0; i < h; i++ {
 		shift := 5
 		if !pass && util.Bool(i&1) {
@@ -192,21 +180,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 						}
 					}
 
-					// ugly negative indexing workaround
-					if i+dy == -1 && j+dx == -1 {
-						a += weight * A[len(A)-1][len(A[len(A)-1])-1]
-						b += weight * B[len(B)-1][len(B[len(B)-1])-1]
-					} else if i+dy == -1 {
-						a += weight * A[len(A)-1][j+dx]
-						b += weight * B[len(B)-1][j+dx]
-					} else if j+dx == -1 {
-						a += weight * A[i+dy][len(A[len(A)-1])-1]
-						b += weight * B[i+dy][len(B[len(B)-1])-1]
-					} else {
-						a += weight * A[i+dy][j+dx]
-						b += weight * B[i+dy][j+dx]
-
-					}
+					a += weight * A[i+dy+1][j+dx+1]
+					b += weight * B[i+dy+1][j+dx+1]
 				}
 			}
 			v := a*state.UpscaledCdefFrame[plane][y+i][x+j] + b
-- 
2.43.0


From 358366b75e2783ff15f76476a44406717aa577ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:00 +0000
Subject: [PATCH 170/189] fix: one allocation for the samples of a plane

---
 internal/state/state.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 72e59b0..66a8612 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -551,8 +551,9 @@ func (s *State) NewFrame(width int, height int) [3][][]int {
 	var frame [3][][]int
 	for plane := range frame {
 		frame[plane] = make([][]int, height)
+		samples := make([]int, width*height)
 		for y := range frame[plane] {
-			frame[plane][y] = make([]int, width)
+			frame[plane][y] = samples[y*width : (y+1)*width : (y+1)*width]
 		}
 	}
 
-- 
2.43.0


From cacb68327bd8a7696617e7160b0b869abc5ce70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:26 +0000
Subject: [PATCH 171/189] fix: room for the samples of a local warp

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 internal/tilegroup/tile_group.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 11fe68a..7e7a36a 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -384,7 +384,7 @@ func (t *TileGroup) addSample(deltaRow int, deltaCol int, state *state.State) {
 	mvDiffCol := util.Abs(t.Mvs[candRow][candCol][0][1] - t.Mv[0][1])
 	valid := (mvDiffRow + mvDiffCol) <= threshold
 
-	var cand []int
+	var cand [4]int
 	cand[0] = midY * 8
 	cand[1] = midX * 8
 	cand[2] = midY*8 + t.Mvs[candRow][candCol][0][0]
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 18d229a..a4c1c3b 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -198,7 +198,7 @@ type TileGroup struct {
 
 	NumSamples        int
 	NumSamplesScanned int
-	CandList          [][]int
+	CandList          [LEAST_SQUARES_SAMPLES_MAX][4]int
 
 	MaskType int
 
-- 
2.43.0


From 711338583fdec8441157b0ac4c686b83761ae55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 172/189] fix: keep the samples of a local warp that fit, not
 the others

---
 internal/tilegroup/inter_block_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 7e7a36a..b9e848b 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -391,7 +391,7 @@ func (t *TileGroup) addSample(deltaRow int, deltaCol int, state *state.State) {
 	cand[3] = midX*8 + t.Mvs[candRow][candCol][0][1]
 
 	t.NumSamplesScanned++
-	if valid && t.NumSamplesScanned > 1 {
+	if !valid && t.NumSamplesScanned > 1 {
 		return
 	}
 
-- 
2.43.0


From 7e446279e325d20df33b22b81dcc943d8fdd1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:28 +0000
Subject: [PATCH 173/189] fix: entry of the division table

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 15dc617..5444e79 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -846,7 +846,7 @@ var Div_Lut = []int{
 	11125, 11096, 11067, 11038, 11009, 10980, 10951, 10923, 10894, 10866, 10838,
 	10810, 10782, 10755, 10727, 10700, 10673, 10645, 10618, 10592, 10565, 10538,
 	10512, 10486, 10460, 10434, 10408, 10382, 10356, 10331, 10305, 10280, 10255,
-	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 99869,
+	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 9986,
 	9963, 9939, 9916, 9892, 9869, 9846, 9823, 9800, 9777, 9754, 9732,
 	9709, 9687, 9664, 9642, 9620, 9598, 9576, 9554, 9533, 9511, 9489,
 	9468, 9447, 9425, 9404, 9383, 9362, 9341, 9321, 9300, 9279, 9259,
-- 
2.43.0


From 889b7e639f3bfe25b65576b84c2c5938fcb674c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:30 +0000
Subject: [PATCH 174/189] fix: room for the sums of the warp estimation

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 5444e79..160a1ff 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -439,9 +439,9 @@ func (t *TileGroup) resolveDivisorProcess(d int) (int, int) {
 
 // 7.11.3.8 Warp estimation process
 func (t *TileGroup) warpEstimationProcess(state *state.State) {
-	var A [][]int
-	var Bx []int
-	var By []int
+	var A [2][2]int
+	var Bx [2]int
+	var By [2]int
 	for i := 0; i < 2; i++ {
 		for j := 0; j < 2; j++ {
 			A[i][j] = 0
-- 
2.43.0


From 5b577c4ad48580dc5c3d4e814c90e2d648882936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:31 +0000
Subject: [PATCH 175/189] fix: sums of the warp estimation

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 160a1ff..dd6c4b4 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -470,11 +470,11 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 		if util.Abs(sx-dx) < LS_MV_MAX && util.Abs(sy-dy) < LS_MV_MAX {
 			A[0][0] += util.LsProduct(sx, sx) + 8
 			A[0][1] += util.LsProduct(sx, sy) + 4
-			A[1][1] += util.LsProduct(sy, sx) + 8
+			A[1][1] += util.LsProduct(sy, sy) + 8
 			Bx[0] += util.LsProduct(sx, dx) + 8
 			Bx[1] += util.LsProduct(sy, dx) + 4
-			Bx[0] += util.LsProduct(sx, dy) + 4
-			Bx[1] += util.LsProduct(sy, dy) + 8
+			By[0] += util.LsProduct(sx, dy) + 4
+			By[1] += util.LsProduct(sy, dy) + 8
 		}
 	}
 
-- 
2.43.0


From be00d1e13c47d0f5e432c8e897874becd25585a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:32 +0000
Subject: [PATCH 176/189] fix: division by small determinants in the warp
 estimation

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index dd6c4b4..adefb65 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -492,7 +492,7 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	divShift -= shared.WARPEDMODEL_PREC_BITS
 
 	if divShift < 0 {
-		divFactor = divFactor << (divShift)
+		divFactor = divFactor << (-divShift)
 		divShift = 0
 	}
 
-- 
2.43.0


From 5ee1dc870a02aa7e39b373eb552c45778684bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:33 +0000
Subject: [PATCH 177/189] fix: parameters of the estimated warp

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index adefb65..e8b22a6 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -497,14 +497,14 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	}
 
 	t.LocalWarpParams[2] = t.diag(A[1][1]*Bx[0]-A[0][1]*Bx[1], divFactor, divShift)
-	t.LocalWarpParams[3] = t.nondiag(-A[1][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
+	t.LocalWarpParams[3] = t.nondiag(-A[0][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
 	t.LocalWarpParams[4] = t.nondiag(A[1][1]*By[0]-A[0][1]*By[1], divFactor, divShift)
-	t.LocalWarpParams[5] = t.diag(-A[1][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
+	t.LocalWarpParams[5] = t.diag(-A[0][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
 
 	mvx := t.Mv[0][1]
 	mvy := t.Mv[0][0]
 	vx := mvx*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*(t.LocalWarpParams[2]-(1<<shared.WARPEDMODEL_PREC_BITS)) + midY*t.LocalWarpParams[3])
-	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX * (t.LocalWarpParams[4] + midY + (t.LocalWarpParams[5]) - (1 << shared.WARPEDMODEL_PREC_BITS)))
+	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*t.LocalWarpParams[4] + midY*(t.LocalWarpParams[5]-(1<<shared.WARPEDMODEL_PREC_BITS)))
 
 	t.LocalWarpParams[0] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vx)
 	t.LocalWarpParams[1] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vy)
-- 
2.43.0


From 4934031930111302c17e3ccc437b6dbbd52d0827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:03 +0000
Subject: [PATCH 178/189] fix: room for the predictions of a block

---
 internal/tilegroup/predict_inter.go | 41 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index e8b22a6..5ae05bb 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -17,8 +17,6 @@ var Quant_Dist_Lookup = [][]int{
 	{9, 7}, {11, 5}, {12, 4}, {13, 3},
 }
 
-const PRED_SIZE = 16
-
 // 7.11.3 Inter prediction process
 func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	isCompound := state.RefFrames[candRow][candCol][1] > shared.INTRA_FRAME
@@ -71,12 +69,12 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
 	}
 
-	var preds [2][PRED_SIZE][PRED_SIZE]int
+	var preds [2][][]int
 	if useWarp != 0 {
+		preds[refList] = newPrediction(w, h)
 		for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 			for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-				// TODO: what exactly is supposed to happen here
-				preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+				t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, preds[refList], state, uh, sh)
 			}
 		}
 	}
@@ -126,12 +124,11 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
 		}
 
-		var preds [][PRED_SIZE][PRED_SIZE]int
 		if useWarp != 0 {
+			preds[refList] = newPrediction(w, h)
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 				for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-					// TODO: what exactly is supposed to happen here
-					preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+					t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, preds[refList], state, uh, sh)
 				}
 			}
 		}
@@ -180,6 +177,15 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	}
 }
 
+func newPrediction(w int, h int) [][]int {
+	pred := make([][]int, h)
+	for i := range pred {
+		pred[i] = make([]int, w)
+	}
+
+	return pred
+}
+
 // 7.11.3.2 Rounding variables derivation process
 func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequenceheader.SequenceHeader) {
 	t.InterRound0 = 3
@@ -250,7 +256,7 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 }
 
 // 7.11.3.4 Block inter prediction process
-func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
+func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [][]int {
 	var ref [3][][]int
 	if refIdx == -1 {
 		ref = state.CurrFrame
@@ -279,7 +285,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var intermediate [8][8]int
+	intermediate := newPrediction(w, intermediateHeight)
 	for r := 0; r < intermediateHeight; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -300,7 +306,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var pred [PRED_SIZE][PRED_SIZE]int
+	pred := newPrediction(w, h)
 	for r := 0; r < h; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -316,8 +322,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 }
 
 // 7.11.3.5 Block warp process
-func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var pred [PRED_SIZE][PRED_SIZE]int
+func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, pred [][]int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
 	ref := state.FrameStore[refIdx]
@@ -354,7 +359,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	iy4 := y4 >> shared.WARPEDMODEL_PREC_BITS
 	sy4 := y4 & ((1 << shared.WARPEDMODEL_PREC_BITS) - 1)
 
-	var intermediate [][]int
+	var intermediate [15][8]int
 	for i1 := -7; i1 < 8; i1++ {
 		for i2 := -4; i2 < 4; i2++ {
 			sx := sx4 + alpha*i2 + beta*i1
@@ -381,8 +386,6 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 			pred[i8*8+i1+4][j8*8+i2+4] = util.Round2(s, t.InterRound1)
 		}
 	}
-
-	return pred
 }
 
 // 7.11.3.6 Setup shear process
@@ -601,7 +604,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 }
 
 // 7.11.3.10 Overlap blending process
-func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, predW int, predH int, pass bool, obmcPred [PRED_SIZE][PRED_SIZE]int, mask []int, state *state.State) {
+func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, predW int, predH int, pass bool, obmcPred [][]int, mask []int, state *state.State) {
 	for i := 0; i < predH; i++ {
 		var m int
 		for j := 0; j < predW; j++ {
@@ -627,7 +630,7 @@ func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
 }
 
 // 7.11.3.12 Difference weight mask process
-func (t *TileGroup) differenceWeightMaskProcess(preds [2][PRED_SIZE][PRED_SIZE]int, w int, h int, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) differenceWeightMaskProcess(preds [2][][]int, w int, h int, sh sequenceheader.SequenceHeader) {
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
 			diff := util.Abs(preds[0][i][j] - preds[1][i][j])
@@ -661,7 +664,7 @@ func (t *TileGroup) intraModeVariantMaskProcess(w int, h int) {
 }
 
 // 7.11.3.14 Mask blend process
-func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane int, dstX int, dstY int, w int, h int, sh sequenceheader.SequenceHeader, state *state.State) {
+func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY int, w int, h int, sh sequenceheader.SequenceHeader, state *state.State) {
 	subX := 0
 	subY := 0
 	if plane != 0 {
-- 
2.43.0


From e58a7a163b60eb54d301b6af4461613d29a0208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:25 +0000
Subject: [PATCH 179/189] fix: columns of predicted samples

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 5ae05bb..abe8b6d 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -153,19 +153,19 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	if !isCompound && !t.IsInterIntra {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_AVERAGE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_DISTANCE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else {
-- 
2.43.0


From eb792c929ed48d3519c3efee591a276a6931c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:26 +0000
Subject: [PATCH 180/189] fix: fraction of interpolated positions

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index abe8b6d..31a6546 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -291,7 +291,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := x + xStep*c
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
 			}
 			intermediate[r][c] = util.Round2(s, t.InterRound0)
 		}
@@ -312,7 +312,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := (y & 1023) + yStep*r
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
 			}
 			pred[r][c] = util.Round2(s, t.InterRound1)
 		}
-- 
2.43.0


From 37d2fa6362becf0b525fc02efb9763d8c9b11bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 181/189] fix: prediction of block copies from the frame being
 decoded

---
 internal/tilegroup/predict_inter.go | 50 ++++++++++++-----------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 31a6546..b49e313 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -57,18 +57,9 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 	} else {
 		refIdx = -1
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
 	}
 	startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
-	if util.Bool(t.useIntrabc) {
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
-	}
-
 	var preds [2][][]int
 	if useWarp != 0 {
 		preds[refList] = newPrediction(w, h)
@@ -111,19 +102,10 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 		} else {
 			refIdx = -1
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
 		}
 
 		startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
-		if util.Bool(t.useIntrabc) {
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
-		}
-
 		if useWarp != 0 {
 			preds[refList] = newPrediction(w, h)
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
@@ -208,27 +190,32 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 
 // 7.11.3.3  Motion vector scaling process
 func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y int, mv [2]int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) (int, int, int, int) {
-	if !(2*uh.FrameWidth >= state.RefUpscaledWidth[refIdx]) {
+	// refIdx -1 is prediction from the frame currently being decoded
+	refUpscaledWidth := uh.UpscaledWidth
+	refFrameHeight := uh.FrameHeight
+	if refIdx != -1 {
+		refUpscaledWidth = state.RefUpscaledWidth[refIdx]
+		refFrameHeight = state.RefFrameHeight[refIdx]
+	}
+
+	if !(2*uh.FrameWidth >= refUpscaledWidth) {
 		panic("bitstream conformance violated: 2*uh.FrameWidth >= t.RefUpscaledWidth[refIdx]")
 	}
 
-	if !(2*uh.FrameHeight >= state.RefFrameHeight[refIdx]) {
+	if !(2*uh.FrameHeight >= refFrameHeight) {
 		panic("bitstream conformance violated: 2*uh.FrameHeight >= t.RefFrameHeight[refIdx]")
 	}
 
-	if !(uh.FrameWidth <= 16*state.RefUpscaledWidth[refIdx]) {
+	if !(uh.FrameWidth <= 16*refUpscaledWidth) {
 		panic("bitstream conformance violated: uh.FrameWidth <= 16*t.RefUpscaledWidth[refIdx]")
 	}
 
-	if !(uh.FrameHeight <= 16*state.RefFrameHeight[refIdx]) {
+	if !(uh.FrameHeight <= 16*refFrameHeight) {
 		panic("bitstream conformance violated: uh.FrameHeight <= 16*t.RefFrameHeight[refIdx]")
 	}
 
-	// TODO: Note: When intra block copy is being used, refIdx will be equal to -1 to signal prediction from the frame currently
-	// being decoded. The arrays RefFrameWidth, RefFrameHeight, and RefUpscaledWidth include values at index -1
-	// giving the dimensions of the current frame.
-	xScale := ((state.RefUpscaledWidth[refIdx] << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
-	yScale := ((state.RefFrameHeight[refIdx] << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
+	xScale := ((refUpscaledWidth << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
+	yScale := ((refFrameHeight << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
 
 	subX := 0
 	subY := 0
@@ -258,10 +245,15 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [][]int {
 	var ref [3][][]int
+	var refUpscaledWidth, refFrameHeight int
 	if refIdx == -1 {
 		ref = state.CurrFrame
+		refUpscaledWidth = state.MiCols * MI_SIZE
+		refFrameHeight = state.MiRows * MI_SIZE
 	} else {
 		ref = state.FrameStore[refIdx]
+		refUpscaledWidth = state.RefUpscaledWidth[refIdx]
+		refFrameHeight = state.RefFrameHeight[refIdx]
 	}
 
 	subX := 0
@@ -271,8 +263,8 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		subY = util.Int(sh.ColorConfig.SubsamplingY)
 	}
 
-	lastX := ((state.RefUpscaledWidth[refIdx] + subX) >> subX) - 1
-	lastY := ((state.RefFrameHeight[refIdx] + subY) >> subY) - 1
+	lastX := ((refUpscaledWidth + subX) >> subX) - 1
+	lastY := ((refFrameHeight + subY) >> subY) - 1
 
 	intermediateHeight := (((h-1)*yStep + (1 << SCALE_SUBPEL_BITS) - 1) >> SCALE_SUBPEL_BITS) + 8
 
-- 
2.43.0


From c497395fd7db1ef1043283dfacc7a2124c300349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:47 +0000
Subject: [PATCH 182/189] fix: rounding of compound predictions

---
 internal/tilegroup/predict_inter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index b49e313..5f38c83 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -186,6 +186,8 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 		t.InterRound1 = t.InterRound1 - 2
 	}
 
+	// what the two stages leave of the 14 bits of the filters
+	t.InterPostRound = 14 - t.InterRound0 - t.InterRound1
 }
 
 // 7.11.3.3  Motion vector scaling process
-- 
2.43.0


From ec4f48bc766685205e2debd15530828f3e36b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:48 +0000
Subject: [PATCH 183/189] fix: room for masks and distances of compound
 prediction

---
 internal/tilegroup/predict_inter.go | 2 +-
 internal/tilegroup/tile_group.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 5f38c83..cebbf8a 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -693,7 +693,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY
 
 // 7.11.3.15 Distance weights process
 func (t *TileGroup) distanceWeightsProcess(candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	var dist []int
+	var dist [2]int
 	for refList := 0; refList < 2; refList++ {
 		h := uh.OrderHints[state.RefFrames[candRow][candCol][refList]]
 		dist[refList] = util.Clip3(0, MAX_FRAME_DISTANCE, util.Abs(uh.GetRelativeDist(h, uh.OrderHint, sh)))
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index a4c1c3b..bb623dc 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -235,7 +235,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	Mask [][]int
+	Mask [MAX_SB_SIZE][MAX_SB_SIZE]int
 
 	FwdWeight int
 	BckWeight int
-- 
2.43.0


From 758c266028bc606df7734a94867c116e1ba38151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:49 +0000
Subject: [PATCH 184/189] fix: difference masks come from the luma predictions

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index cebbf8a..169c351 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -124,7 +124,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		t.wedgeMaskProcess(w, h, state)
 	} else if t.CompoundType == COMPOUND_INTRA {
 		t.intraModeVariantMaskProcess(w, h)
-	} else if t.CompoundType == COMPOUND_DIFFWTD {
+	} else if t.CompoundType == COMPOUND_DIFFWTD && plane == 0 {
 		t.differenceWeightMaskProcess(preds, w, h, sh)
 	}
 
-- 
2.43.0


From a2e988e06cf2d6b6e3f7a3ddc7ac1945199d2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:50 +0000
Subject: [PATCH 185/189] fix: clip masked compound predictions

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 169c351..a47e313 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -685,7 +685,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY
 			} else {
 				pred0 := preds[0][y][x]
 				pred1 := preds[1][y][x]
-				state.CurrFrame[plane][y+dstY][x+dstX] = util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound)
+				state.CurrFrame[plane][y+dstY][x+dstX] = util.Clip1(util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	}
-- 
2.43.0


From 661c77d87f6df94aec5fba655cdb79220ea903bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:51 +0000
Subject: [PATCH 186/189] fix: direction of overlapped block motion
 compensation

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index a47e313..c33b90e 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -534,7 +534,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 					nCount += 1
 					predW := util.Min(w, (step4*MI_SIZE)>>subX)
 					predH := util.Min(h>>1, 32>>subY)
-					mask := util.GetObmcMask(predW)
+					mask := util.GetObmcMask(predH)
 
 					// predict_overlap( )
 					mv := t.Mvs[candRow][candCol][0]
@@ -558,7 +558,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 	}
 
 	if state.AvailL {
-		pass := 0
+		pass := 1
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 		x4 := state.MiCol
 		y4 := state.MiRow
-- 
2.43.0


From b2a2dc379536bd7720a7512ee0a8c6d867dd8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:52 +0000
Subject: [PATCH 187/189] fix: wedge masks are set up once

---
 internal/tilegroup/predict_inter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index c33b90e..e053e2a 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -1,6 +1,8 @@
 package tilegroup
 
 import (
+	"sync"
+
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
@@ -17,6 +19,9 @@ var Quant_Dist_Lookup = [][]int{
 	{9, 7}, {11, 5}, {12, 4}, {13, 3},
 }
 
+// The wedge masks are shared by all decoders
+var wedgeMasks sync.Once
+
 // 7.11.3 Inter prediction process
 func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	isCompound := state.RefFrames[candRow][candCol][1] > shared.INTRA_FRAME
@@ -615,7 +620,7 @@ func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, pred
 
 // 7.11.3.11 Wedge mask process
 func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
-	wedgemask.InitialiseWedgeMaskTable(state)
+	wedgeMasks.Do(func() { wedgemask.InitialiseWedgeMaskTable(state) })
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
 			t.Mask[i][j] = wedgemask.WedgeMasks[state.MiSize][t.WedgeSign][t.WedgeIndex][i][j]
-- 
2.43.0


From d85fee09f11768d894a53b3a22ba9d1faad653af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:36 +0000
Subject: [PATCH 188/189] fix: precision of the division table

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index bb623dc..0899078 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -121,7 +121,7 @@ const REF_SCALE_SHIFT = 14
 const INTRA_FILTER_SCALE_BITS = 4
 
 const LS_MV_MAX = 256
-const DIV_LUT_PREC_BITS = 13
+const DIV_LUT_PREC_BITS = 14
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-- 
2.43.0


From 6fa36758c0536cb03590578736ca278257e175b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 189/189] fix: samples of the chroma planes of an existing
 frame that is shown

---
 internal/tilegroup/output.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index ef4ffc8..75f907a 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -39,14 +39,14 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 		t.OutU = newPlane((w+subX)>>subX, (h+subY)>>subY)
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][x][y]
+				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][y][x]
 			}
 		}
 
 		t.OutV = newPlane((w+subX)>>subX, (h+subY)>>subY)
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][x][y]
+				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][y][x]
 			}
 		}
 
-- 
2.43.0

