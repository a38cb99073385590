From daccb6bb9106a6ecc6777ac4aa2feb5256910313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 1/4] fix: Bitboard::shift_right(0) and (1) set a bit outside
 the board

With delta <= 1 the lowest squares of the two leftmost files were shifted
into bit 63 of the first word, which no square owns: the result compared
different from the set it stands for and counted one square too many.
---
 shogi_core/src/bitboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index 8dc553b..dd0219a 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -343,7 +343,7 @@ impl Bitboard {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
             [
-                self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta),
+                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,
                 self.0[1] >> (9 * delta),
             ]
         } else if delta <= 7 {
-- 
2.43.0


From 8032d325d63aada5788338ab4a20234a86e3ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 2/4] fix: PartialPosition::piece_set leaves a removed king in
 king_position

Removing or replacing a king did not touch the recorded square of that king,
so king_position reported a square without a king, and two positions with
the same contents compared unequal while their ordering and hash agreed.
---
 shogi_core/src/position.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 56b2243..11869d5 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -601,11 +601,13 @@ impl PartialPosition {
         if let Some(piece) = piece {
             let piece_kind = piece.piece_kind();
             self.piece_bb[piece_kind.array_index()] |= single;
-            if let Piece::B_K = piece {
-                self.king_square[0] = OptionSquare::from(Some(square));
-            }
-            if let Piece::W_K = piece {
-                self.king_square[1] = OptionSquare::from(Some(square));
+        }
+        // The recorded square of a king depends on the board only: a king that was removed or
+        // replaced is no longer found where it was.
+        for king in [Piece::B_K, Piece::W_K] {
+            if old == Some(king) || piece == Some(king) {
+                let king_square = self.piece_bitboard(king).pop();
+                self.king_square[king.color().array_index()] = OptionSquare::from(king_square);
             }
         }
     }
-- 
2.43.0


From f33ee7b7315306b3bc21cb9a829db580b8ca075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 3/4] fix: Square_from_u8 and Square_shift cannot be called
 from C

The exported functions return Option<Square>, which cbindgen cannot express:
the header declared them with an incomplete struct type. Export OptionSquare,
as every other function returning a square does.
---
 include/shogi_core.h     | 28 ++++------------------------
 shogi_core/src/square.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/include/shogi_core.h b/include/shogi_core.h
index cb221b5..f8e5948 100644
--- a/include/shogi_core.h
+++ b/include/shogi_core.h
@@ -288,8 +288,6 @@ typedef uint8_t PieceKind;
 typedef struct Game Game;
 #endif
 
-typedef struct Option_Square Option_Square;
-
 /**
  * A record of a game. A position and how a game is resolved.
  */
@@ -1006,17 +1004,9 @@ uint8_t Square_file(Square self);
 Square Square_flip(Square self);
 
 /**
- * Converts a [`u8`] to a [`Square`]. If `value` is not in range `1..=81`, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::from_u8(21), Some(Square::SQ_3C));
- * assert_eq!(Square::from_u8(0), None);
- * assert_eq!(Square::from_u8(82), None);
- * ```
+ * C interface to [`Square::from_u8`].
  */
-struct Option_Square Square_from_u8(uint8_t value);
+OptionSquare Square_from_u8(uint8_t value);
 
 /**
  * C interface to [`Square::from_u8_unchecked`].
@@ -1070,18 +1060,8 @@ uint8_t Square_relative_file(Square self, Color color);
 uint8_t Square_relative_rank(Square self, Color color);
 
 /**
- * Shifts `self` by the given arguments. If the result would be out of the board, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::SQ_3C.shift(-1, 3), Some(Square::SQ_2F));
- * assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
- * assert_eq!(Square::SQ_3C.shift(-4, 3), None);
- * ```
+ * C interface to [`Square::shift`].
  */
-struct Option_Square Square_shift(Square self,
-                                  int8_t file_delta,
-                                  int8_t rank_delta);
+OptionSquare Square_shift(Square self, int8_t file_delta, int8_t rank_delta);
 
 #endif /* shogi_core_bindings_h */
diff --git a/shogi_core/src/square.rs b/shogi_core/src/square.rs
index 09ba7c2..eb90c56 100644
--- a/shogi_core/src/square.rs
+++ b/shogi_core/src/square.rs
@@ -151,7 +151,6 @@ impl Square {
     /// assert_eq!(Square::from_u8(82), None);
     /// ```
     #[inline]
-    #[export_name = "Square_from_u8"]
     pub extern "C" fn from_u8(value: u8) -> Option<Self> {
         // The shortest possible machine code for this function in x86_64 (System V AMD64 ABI) is:
         // 31 c0       xorl %eax, %eax
@@ -165,6 +164,12 @@ impl Square {
         }
     }
 
+    /// C interface to [`Square::from_u8`].
+    #[no_mangle]
+    pub extern "C" fn Square_from_u8(value: u8) -> OptionSquare {
+        Self::from_u8(value).into()
+    }
+
     /// Converts [`u8`] to [`Square`] without checking.
     ///
     /// # Safety
@@ -199,7 +204,6 @@ impl Square {
     /// assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
     /// assert_eq!(Square::SQ_3C.shift(-4, 3), None);
     /// ```
-    #[export_name = "Square_shift"]
     pub extern "C" fn shift(self, file_delta: i8, rank_delta: i8) -> Option<Self> {
         self.sanity_check();
         let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);
@@ -211,6 +215,12 @@ impl Square {
         Some(unsafe { Self::from_u8_unchecked((file_m1 * 9 + rank_m1 + 1) as u8) })
     }
 
+    /// C interface to [`Square::shift`].
+    #[no_mangle]
+    pub extern "C" fn Square_shift(self, file_delta: i8, rank_delta: i8) -> OptionSquare {
+        self.shift(file_delta, rank_delta).into()
+    }
+
     /// Returns the index of `self` for array accesses. This function returns an integer in range `0..Square::MAX`.
     ///
     /// Since: 0.1.2
-- 
2.43.0


From 90a802233d68eedc978db92aa0d845d84c7b5b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 4/4] fix: memory from the no_std allocator is not aligned

Offsets into the arena were rounded to the requested alignment, but the arena
was a plain byte array that the linker may place at an odd address.
Align the arena to the largest alignment the allocator supports.
---
 shogi_core_c/src/no_std.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 522c9be..05bba82 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -69,7 +69,11 @@ mod simple_alloc {
         remaining: AtomicUsize, // we allocate from the top, counting down
     }
 
-    static mut ARENA_BSS: UnsafeCell<[u8; ARENA_SIZE]> = UnsafeCell::new([0x00; ARENA_SIZE]);
+    // Offsets in the arena are aligned, so the arena itself has to be aligned too.
+    #[repr(C, align(4096))] // MAX_SUPPORTED_ALIGN
+    struct Arena([u8; ARENA_SIZE]);
+
+    static mut ARENA_BSS: UnsafeCell<Arena> = UnsafeCell::new(Arena([0x00; ARENA_SIZE]));
 
     #[global_allocator]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
-- 
2.43.0

