From 1f0a08535b9027c5ec04d380e67e55284b1489d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 1/5] fix: constant-time key schedule on big-endian targets

The columns are read in memory order, so on a big-endian target RotWord is a
rotation to the left and the round constant belongs to the topmost byte. Every
key schedule of the constant-time backend was wrong there.
---
 src/aes_bitslice.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/aes_bitslice.rs b/src/aes_bitslice.rs
index 2dda97a..5903d26 100644
--- a/src/aes_bitslice.rs
+++ b/src/aes_bitslice.rs
@@ -335,7 +335,29 @@ impl AesBlock {
     }
 }
 
-const RCON: [u32; 10] = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36];
+// the round constant belongs to the first byte of the column in memory
+const RCON: [u32; 10] = [
+    0x01_u32.to_le(),
+    0x02_u32.to_le(),
+    0x04_u32.to_le(),
+    0x08_u32.to_le(),
+    0x10_u32.to_le(),
+    0x20_u32.to_le(),
+    0x40_u32.to_le(),
+    0x80_u32.to_le(),
+    0x1b_u32.to_le(),
+    0x36_u32.to_le(),
+];
+
+/// Rotates the bytes of a column, as they are in memory, one place to the front
+#[inline(always)]
+const fn rot_word(word: u32) -> u32 {
+    if cfg!(target_endian = "big") {
+        word.rotate_left(8)
+    } else {
+        word.rotate_right(8)
+    }
+}
 
 pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     let mut expanded_keys: [AesBlock; 11] = unsafe { mem::zeroed() };
@@ -346,7 +368,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = columns[i + 0] ^ sub_word(columns[i + 3]).rotate_right(8) ^ RCON[i / 4];
+        columns[i + 4] = columns[i + 0] ^ rot_word(sub_word(columns[i + 3])) ^ RCON[i / 4];
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -364,7 +386,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = columns[i + 0] ^ sub_word(columns[i + 5]).rotate_right(8) ^ RCON[i / 6];
+        columns[i + 6] = columns[i + 0] ^ rot_word(sub_word(columns[i + 5])) ^ RCON[i / 6];
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -372,7 +394,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = columns[42] ^ sub_word(columns[47]).rotate_right(8) ^ RCON[7];
+    columns[48] = columns[42] ^ rot_word(sub_word(columns[47])) ^ RCON[7];
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -389,7 +411,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
     }
 
     for i in (0..48).step_by(8) {
-        columns[i + 8] = columns[i + 0] ^ sub_word(columns[i + 7]).rotate_right(8) ^ RCON[i / 8];
+        columns[i + 8] = columns[i + 0] ^ rot_word(sub_word(columns[i + 7])) ^ RCON[i / 8];
         columns[i + 9] = columns[i + 1] ^ columns[i + 8];
         columns[i + 10] = columns[i + 2] ^ columns[i + 9];
         columns[i + 11] = columns[i + 3] ^ columns[i + 10];
@@ -399,7 +421,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = columns[48] ^ sub_word(columns[55]).rotate_right(8) ^ RCON[6];
+    columns[56] = columns[48] ^ rot_word(sub_word(columns[55])) ^ RCON[6];
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From aa30af59d005be938dcd04f7acfab60a98ee1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 2/5] fix: rotate the last column in the RISC-V 32 key
 schedules

RotWord was missing from the 128- and 192-bit schedules and from the last
round keys of the 192- and 256-bit ones.
---
 src/aes_riscv32.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index fc26a38..e1104dd 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -204,7 +204,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3]);
+        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3].rotate_right(8));
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -224,7 +224,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5]);
+        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5].rotate_right(8));
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -232,7 +232,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47]);
+    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47].rotate_right(8));
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -261,7 +261,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55]);
+    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55].rotate_right(8));
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From a1d4e30e4089e95158d8671f7e2215c7f4b5acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 3/5] fix: InvShiftRows in RISC-V 32 decryption

Decryption gathered its columns in the order of ShiftRows, so dec, dec_last,
mc and imc were wrong whenever the columns differ.
---
 src/aes_riscv32.rs | 55 ++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index e1104dd..d83a64d 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -17,26 +17,39 @@ extern "unadjusted" {
     fn aes32dsi(rs1: u32, rs2: u32, bs: u32) -> u32;
 }
 
-macro_rules! outer {
-    ($name:ident, $msg:ident, $rk:ident) => {{
-        #[inline(always)]
-        fn inner(t0: u32, t1: u32, t2: u32, t3: u32, rk: u32) -> u32 {
-            let mut value = rk;
-            unsafe {
-                value = $name(value, t0, 0);
-                value = $name(value, t1, 1);
-                value = $name(value, t2, 2);
-                value = $name(value, t3, 3);
-            }
-            value
+macro_rules! column {
+    ($name:ident, $rk:expr, $t0:expr, $t1:expr, $t2:expr, $t3:expr) => {{
+        let mut value = $rk;
+        unsafe {
+            value = $name(value, $t0, 0);
+            value = $name(value, $t1, 1);
+            value = $name(value, $t2, 2);
+            value = $name(value, $t3, 3);
         }
+        value
+    }};
+}
+
+macro_rules! outer_enc {
+    ($name:ident, $msg:ident, $rk:ident) => {
         AesBlock(
-            inner($msg.0, $msg.1, $msg.2, $msg.3, $rk.0),
-            inner($msg.1, $msg.2, $msg.3, $msg.0, $rk.1),
-            inner($msg.2, $msg.3, $msg.0, $msg.1, $rk.2),
-            inner($msg.3, $msg.0, $msg.1, $msg.2, $rk.3),
+            column!($name, $rk.0, $msg.0, $msg.1, $msg.2, $msg.3),
+            column!($name, $rk.1, $msg.1, $msg.2, $msg.3, $msg.0),
+            column!($name, $rk.2, $msg.2, $msg.3, $msg.0, $msg.1),
+            column!($name, $rk.3, $msg.3, $msg.0, $msg.1, $msg.2),
         )
-    }};
+    };
+}
+
+macro_rules! outer_dec {
+    ($name:ident, $msg:ident, $rk:ident) => {
+        AesBlock(
+            column!($name, $rk.0, $msg.0, $msg.3, $msg.2, $msg.1),
+            column!($name, $rk.1, $msg.1, $msg.0, $msg.3, $msg.2),
+            column!($name, $rk.2, $msg.2, $msg.1, $msg.0, $msg.3),
+            column!($name, $rk.3, $msg.3, $msg.2, $msg.1, $msg.0),
+        )
+    };
 }
 
 impl From<[u8; 16]> for AesBlock {
@@ -124,7 +137,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_enc(self, round_key: Self) -> Self {
-        outer!(aes32esmi, self, round_key)
+        outer_enc!(aes32esmi, self, round_key)
     }
 
     /// Performs one round of AES encryption function (`ShiftRows`->`SubBytes`->`MixColumns`->`AddRoundKey`)
@@ -135,7 +148,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_enc_last(self, round_key: Self) -> Self {
-        outer!(aes32esi, self, round_key)
+        outer_enc!(aes32esi, self, round_key)
     }
 
     /// Performs one round of AES encryption function without `MixColumns` (`ShiftRows`->`SubBytes`->`AddRoundKey`)
@@ -146,7 +159,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_dec(self, round_key: Self) -> Self {
-        outer!(aes32dsmi, self, round_key)
+        outer_dec!(aes32dsmi, self, round_key)
     }
 
     /// Performs one round of AES decryption function (`InvShiftRows`->`InvSubBytes`->`InvMixColumn`s->`AddRoundKey`)
@@ -157,7 +170,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_dec_last(self, round_key: Self) -> Self {
-        outer!(aes32dsi, self, round_key)
+        outer_dec!(aes32dsi, self, round_key)
     }
 
     /// Performs one round of AES decryption function without `InvMixColumn`s (`InvShiftRows`->`InvSubBytes`->`AddRoundKey`)
-- 
2.43.0


From 401fde6435e99c5b5b377d098f29070366248833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 4/5] fix: chain_enc and chain_dec on RISC-V 32

There, unlike on ARM, pre_enc and pre_dec add the round key after the round,
so the chain that adds it before was off by one key.
---
 src/lib.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7eaf1fe..3d60c91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,20 +331,14 @@ fn enc_round_keys<const N: usize>(dec_round_keys: &[AesBlock; N]) -> [AesBlock;
 }
 
 cfg_if! {
-    if #[cfg(any(
-        all(
-            any(
-                target_arch = "aarch64",
-                target_arch = "arm64ec",
-                all(feature = "nightly", target_arch = "arm", target_feature = "v8")
-            ),
-            target_feature = "aes",
-        ), all(
-                feature = "nightly",
-                target_arch = "riscv32",
-                target_feature = "zkne",
-                target_feature = "zknd"
-        )))] {
+    if #[cfg(all(
+        any(
+            target_arch = "aarch64",
+            target_arch = "arm64ec",
+            all(feature = "nightly", target_arch = "arm", target_feature = "v8")
+        ),
+        target_feature = "aes",
+    ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
                 impl $name {
-- 
2.43.0


From bb308b43dbc6cd53c35170a748a86811f6203ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 5/5] fix: big-endian ARM with the aes feature does not compile

aes_arm is left out there, and the portable backends have no pre_enc.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3d60c91..400b7c3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,6 +338,7 @@ cfg_if! {
             all(feature = "nightly", target_arch = "arm", target_feature = "v8")
         ),
         target_feature = "aes",
+        target_endian = "little"
     ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
-- 
2.43.0

