From 4cffa4987ec7f6333156fd6349d70d6c740ee472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 1/6] fix: keep Bitboard::shift_right from setting the unused
 top bit

For a delta of 0 or 1, squares of the eighth or ninth file leaked into
bit 63 of the first word, which no square owns: the result compared
unequal to the same set built otherwise, counted a square too many and
popped a square that was not a member.
---
 shogi_core/src/bitboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index 8dc553b..dd0219a 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -343,7 +343,7 @@ impl Bitboard {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
             [
-                self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta),
+                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,
                 self.0[1] >> (9 * delta),
             ]
         } else if delta <= 7 {
-- 
2.43.0


From 163d000539fd0b8d5b975cb2e56893c399325f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 2/6] fix: recompute king squares when a king is removed or
 replaced

PartialPosition::piece_set only ever set the king square, so removing or
overwriting a king left king_position pointing at a square without one,
and positions with the same board could compare unequal (while Ord and
Hash considered them equal).
---
 shogi_core/src/position.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 56b2243..722593d 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -601,12 +601,16 @@ impl PartialPosition {
         if let Some(piece) = piece {
             let piece_kind = piece.piece_kind();
             self.piece_bb[piece_kind.array_index()] |= single;
-            if let Piece::B_K = piece {
-                self.king_square[0] = OptionSquare::from(Some(square));
-            }
-            if let Piece::W_K = piece {
-                self.king_square[1] = OptionSquare::from(Some(square));
-            }
+        }
+        // The squares of the kings must be determined by the board alone:
+        // removing or overwriting a king counts as much as placing one.
+        if matches!(old, Some(Piece::B_K | Piece::W_K))
+            || matches!(piece, Some(Piece::B_K | Piece::W_K))
+        {
+            self.king_square = [
+                self.piece_bitboard(Piece::B_K).pop().into(),
+                self.piece_bitboard(Piece::W_K).pop().into(),
+            ];
         }
     }
 
-- 
2.43.0


From 376940e38a5b5e205bd763b74e693f342bb18a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 3/6] fix: align the arena of the no_std allocator

Offsets into the arena were rounded down to the requested alignment, but
the arena itself had the alignment of u8, so the memory handed out was
aligned only by luck (it is not with the nightly of rust-toolchain used
for the C tests).
---
 shogi_core_c/src/no_std.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 522c9be..16fef76 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -69,7 +69,11 @@ mod simple_alloc {
         remaining: AtomicUsize, // we allocate from the top, counting down
     }
 
-    static mut ARENA_BSS: UnsafeCell<[u8; ARENA_SIZE]> = UnsafeCell::new([0x00; ARENA_SIZE]);
+    // Offsets are rounded down to the requested alignment, so the arena itself must be aligned, too.
+    // The alignment must be equal to MAX_SUPPORTED_ALIGN.
+    #[repr(C, align(4096))]
+    struct Arena([u8; ARENA_SIZE]);
+    static mut ARENA_BSS: UnsafeCell<Arena> = UnsafeCell::new(Arena([0x00; ARENA_SIZE]));
 
     #[global_allocator]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
-- 
2.43.0


From 1a59415f3410aa6efa426b3b0cf92714b014ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 4/6] fix: make Square_from_u8 and Square_shift callable from C

The header declared them to return struct Option_Square, which nothing
defines, so no C program could call them. Return OptionSquare as the
other C functions do.
---
 include/shogi_core.h     | 28 ++++------------------------
 shogi_core/src/square.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/include/shogi_core.h b/include/shogi_core.h
index cb221b5..5888a5f 100644
--- a/include/shogi_core.h
+++ b/include/shogi_core.h
@@ -288,8 +288,6 @@ typedef uint8_t PieceKind;
 typedef struct Game Game;
 #endif
 
-typedef struct Option_Square Option_Square;
-
 /**
  * A record of a game. A position and how a game is resolved.
  */
@@ -1006,17 +1004,9 @@ uint8_t Square_file(Square self);
 Square Square_flip(Square self);
 
 /**
- * Converts a [`u8`] to a [`Square`]. If `value` is not in range `1..=81`, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::from_u8(21), Some(Square::SQ_3C));
- * assert_eq!(Square::from_u8(0), None);
- * assert_eq!(Square::from_u8(82), None);
- * ```
+ * C interface of [`Square::from_u8`].
  */
-struct Option_Square Square_from_u8(uint8_t value);
+OptionSquare Square_from_u8(uint8_t value);
 
 /**
  * C interface to [`Square::from_u8_unchecked`].
@@ -1070,18 +1060,8 @@ uint8_t Square_relative_file(Square self, Color color);
 uint8_t Square_relative_rank(Square self, Color color);
 
 /**
- * Shifts `self` by the given arguments. If the result would be out of the board, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::SQ_3C.shift(-1, 3), Some(Square::SQ_2F));
- * assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
- * assert_eq!(Square::SQ_3C.shift(-4, 3), None);
- * ```
+ * C interface of [`Square::shift`].
  */
-struct Option_Square Square_shift(Square self,
-                                  int8_t file_delta,
-                                  int8_t rank_delta);
+OptionSquare Square_shift(Square self, int8_t file_delta, int8_t rank_delta);
 
 #endif /* shogi_core_bindings_h */
diff --git a/shogi_core/src/square.rs b/shogi_core/src/square.rs
index 09ba7c2..72733bc 100644
--- a/shogi_core/src/square.rs
+++ b/shogi_core/src/square.rs
@@ -151,7 +151,6 @@ impl Square {
     /// assert_eq!(Square::from_u8(82), None);
     /// ```
     #[inline]
-    #[export_name = "Square_from_u8"]
     pub extern "C" fn from_u8(value: u8) -> Option<Self> {
         // The shortest possible machine code for this function in x86_64 (System V AMD64 ABI) is:
         // 31 c0       xorl %eax, %eax
@@ -165,6 +164,12 @@ impl Square {
         }
     }
 
+    /// C interface of [`Square::from_u8`].
+    #[no_mangle]
+    pub extern "C" fn Square_from_u8(value: u8) -> OptionSquare {
+        Self::from_u8(value).into()
+    }
+
     /// Converts [`u8`] to [`Square`] without checking.
     ///
     /// # Safety
@@ -199,7 +204,6 @@ impl Square {
     /// assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
     /// assert_eq!(Square::SQ_3C.shift(-4, 3), None);
     /// ```
-    #[export_name = "Square_shift"]
     pub extern "C" fn shift(self, file_delta: i8, rank_delta: i8) -> Option<Self> {
         self.sanity_check();
         let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);
@@ -211,6 +215,12 @@ impl Square {
         Some(unsafe { Self::from_u8_unchecked((file_m1 * 9 + rank_m1 + 1) as u8) })
     }
 
+    /// C interface of [`Square::shift`].
+    #[no_mangle]
+    pub extern "C" fn Square_shift(self, file_delta: i8, rank_delta: i8) -> OptionSquare {
+        self.shift(file_delta, rank_delta).into()
+    }
+
     /// Returns the index of `self` for array accesses. This function returns an integer in range `0..Square::MAX`.
     ///
     /// Since: 0.1.2
-- 
2.43.0


From eaa33fd82e20b06cc5237d0dbcb7089e57ee6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 5/6] fix: implement the common traits for OptionPieceKind

The documentation promises Eq, Clone and Debug, and with the features ord
and hash PartialOrd, Ord and Hash, for every type; this one had none.
---
 shogi_core/src/piece_kind.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shogi_core/src/piece_kind.rs b/shogi_core/src/piece_kind.rs
index ec5dbd0..7432b9e 100644
--- a/shogi_core/src/piece_kind.rs
+++ b/shogi_core/src/piece_kind.rs
@@ -316,6 +316,7 @@ impl ToUsi for PieceKind {
 ///
 /// See: <https://github.com/eqrion/cbindgen/issues/326>.
 #[repr(transparent)]
+#[derive(Eq, PartialEq, Clone, Copy, Debug)]
 pub struct OptionPieceKind(u8);
 
 impl From<Option<PieceKind>> for OptionPieceKind {
@@ -341,6 +342,9 @@ impl From<OptionPieceKind> for Option<PieceKind> {
     }
 }
 
+impl_ord_for_single_field!(OptionPieceKind);
+impl_hash_for_single_field!(OptionPieceKind);
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 6d24f4a8b572738cbb31a1898c5569e4f071e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 6/6] Verification hook: direct access to the no_std allocator
 under cfg(verif_hooks)

---
 shogi_core_c/src/no_std.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 16fef76..e1e478e 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -116,3 +116,33 @@ mod simple_alloc {
         unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
     }
 }
+
+// Direct access to the allocator, for verification only (`--cfg verif_hooks`).
+#[cfg(all(verif_hooks, feature = "alloc"))]
+mod verif_hooks {
+    use alloc::alloc::{alloc, dealloc, realloc, Layout};
+
+    #[no_mangle]
+    pub unsafe extern "C" fn verif_alloc(size: usize, align: usize) -> *mut u8 {
+        alloc(Layout::from_size_align_unchecked(size, align))
+    }
+
+    #[no_mangle]
+    pub unsafe extern "C" fn verif_dealloc(ptr: *mut u8, size: usize, align: usize) {
+        dealloc(ptr, Layout::from_size_align_unchecked(size, align))
+    }
+
+    #[no_mangle]
+    pub unsafe extern "C" fn verif_realloc(
+        ptr: *mut u8,
+        size: usize,
+        align: usize,
+        new_size: usize,
+    ) -> *mut u8 {
+        realloc(
+            ptr,
+            Layout::from_size_align_unchecked(size, align),
+            new_size,
+        )
+    }
+}
-- 
2.43.0

