From 59cb74a2ff250d091ea1c1897c6aec35f2803b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:03 +0000
Subject: [PATCH 01/17] fix: count UTF-16 units in the length of a WzString
 built from text

Characters outside the BMP take two units; the string was truncated.
---
 src/property/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/string.rs b/src/property/string.rs
index 66f6810..12d609c 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -119,7 +119,7 @@ impl WzString {
             len = str.len();
             WzStringType::Ascii
         } else {
-            len = str.chars().count() * 2;
+            len = str.encode_utf16().count() * 2;
             WzStringType::Unicode
         };
 
@@ -140,7 +140,7 @@ impl WzString {
     pub fn from_str_pkg2_dir(str: &str) -> Self {
         let mut keys = Pkg2Decryptor::new_with_key(0x1A2B3C4D, DecrypterType::KMST1198);
 
-        let len = str.chars().count() * 2;
+        let len = str.encode_utf16().count() * 2;
 
         let encrypted = encrypt_str(&mut keys, str, &WzStringType::Pkg2Dir);
 
-- 
2.43.0


From 09ae4bfdda7ff285ae41eec2987e5858b88ae87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 02/17] fix: drop the generated keys when the iv of an
 EcbDecryptor changes

---
 src/util/string_decryptor/ecb_decryptor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 49935b3..667461f 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -64,6 +64,9 @@ impl Decryptor for EcbDecryptor {
     fn set_iv(&mut self, iv: u64, enc_type: DecrypterType) {
         self.enc_type = enc_type;
         self.iv = (iv as u32).to_le_bytes();
+        // keys generated from the previous iv are no longer valid
+        self.keys.clear();
+        self.without_decrypt = i32::from_le_bytes(self.iv) == 0;
     }
 
     fn get_iv_hash(&self) -> u64 {
-- 
2.43.0


From 067837cbb5517e3b3972dd72025426f37baadfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 03/17] fix: EcbDecryptor::at panicked when the iv is zero

---
 src/util/string_decryptor/ecb_decryptor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 667461f..375afd8 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -86,6 +86,10 @@ impl Decryptor for EcbDecryptor {
 
     /// force get key at index, will expand key size if not enough.
     fn at(&mut self, index: usize) -> &u8 {
+        // there is no key to generate, nothing is encrypted
+        if self.without_decrypt {
+            return &0;
+        }
         if self.keys.len() <= index {
             self.ensure_key_size(index + 1).unwrap();
         }
-- 
2.43.0


From 260bb9987fffcc04c4c7e43a21df804e433c70f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 04/17] Verification hook (cfg(kani)): smaller key batch for
 the verifier

---
 src/lib.rs                                 | 3 +++
 src/util/string_decryptor/ecb_decryptor.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 42aaf1e..06c5145 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `kani` is set by the verifier only
+#![allow(unexpected_cfgs)]
+
 pub mod directory;
 pub mod file;
 mod header;
diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 375afd8..5a315bd 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -4,7 +4,11 @@ use crate::util::maple_crypto_constants::{
 use crate::util::string_decryptor::DecrypterType;
 use aes::cipher::{block_padding::Pkcs7, BlockEncryptMut, BlockSizeUser, KeyInit};
 use aes::Aes256;
+#[cfg(not(kani))]
 const BATCH_SIZE: f64 = 4096_f64;
+// the verifier unrolls the growth loop: a smaller batch, same code
+#[cfg(kani)]
+const BATCH_SIZE: f64 = 32_f64;
 use super::Decryptor;
 
 #[derive(Debug)]
-- 
2.43.0


From 1326903d0ec562a3f9c60bd12b3f91244f751b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 05/17] fix: refuse a negative PKG2 64-bit entry count

---
 src/util/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/offset.rs b/src/util/offset.rs
index 1a197e5..791114c 100644
--- a/src/util/offset.rs
+++ b/src/util/offset.rs
@@ -175,7 +175,7 @@ pub fn decrypt_pkg2_entry_count_64_v1(
 ) -> EntryCountResult<usize> {
     let dir_count =
         (encrypted_entry_count ^ header.hash1 as i64 ^ hash as i64 ^ 0x550EC4DD02C468EC) >> 16;
-    if dir_count > i32::MAX as i64 {
+    if !(0..=i32::MAX as i64).contains(&dir_count) {
         return Err(directory::Error::InvalidEntryCount);
     }
     Ok(dir_count as usize)
-- 
2.43.0


From 6d826db18ee07376a42152f760e74d53eb8e22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 06/17] fix: PKG2 hash search lost the hashes whose rotation
 amount is zero

---
 src/util/version/pkg2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 68bb08c..1142c74 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -410,7 +410,8 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
 
         let future_v_idx = (bit_idx.wrapping_add(info.s)) & 0x1f;
         if future_v_idx <= bit_idx {
-            let known_v_bit = (v_hash >> future_v_idx) & 1;
+            // the bit being decided now is not in v_hash yet
+            let known_v_bit = ((v_hash | (v_bit << bit_idx)) >> future_v_idx) & 1;
             let target_v_xor_h2 = known_v_bit ^ ((info.target >> future_v_idx) & 1);
             if current_lhs_bit != target_v_xor_h2 {
                 continue;
-- 
2.43.0


From 5b6e86b74b5fd957a7ff8a3d584edb6ebb890023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 07/17] fix: PKG2 VersionGen stopped at the first generator
 without a hash

---
 src/util/version/pkg2.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 1142c74..7fde54e 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -349,25 +349,15 @@ impl Iterator for VersionGen {
     type Item = u32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // use the current iterator if it exists
-        if let Some(current_iter) = self.current_iter.as_mut() {
-            if let Some(result) = current_iter.next() {
+        loop {
+            // use the current iterator if it exists
+            if let Some(result) = self.current_iter.as_mut().and_then(|iter| iter.next()) {
                 return Some(result);
-            } else {
-                self.current_iter = None;
             }
-        }
 
-        // try using the next generator
-        if self.current_iter.is_none() {
-            if let Some(generator) = self.generators.pop() {
-                self.current_iter = Some(generator.get_iter());
-                return self.current_iter.as_mut().unwrap().next();
-            }
+            // try using the next generator, stop when there is none left
+            self.current_iter = Some(self.generators.pop()?.get_iter());
         }
-
-        // no more generators to try
-        None
     }
 }
 
-- 
2.43.0


From 31a91e4dcd5eda9aa6e51a91be0273d76f653a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 08/17] fix: the PKG2 hash search skipped u32::MAX

---
 src/util/version/pkg2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 7fde54e..7209c7c 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -427,12 +427,12 @@ fn brute_force_hash<F: Fn(u32, u32, u32) -> bool + Sync>(
     verifier: &F,
 ) -> Vec<u32> {
     #[cfg(feature = "rayon")]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_par_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
     #[cfg(not(feature = "rayon"))]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
-- 
2.43.0


From 10cf0fadcff0b3c471dd4029e1e473bade37137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 09/17] verif hook: expose the backtrack search contract under
 cfg(kani)

---
 src/util/version/pkg2.rs | 49 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 7209c7c..13f6c74 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -417,7 +417,56 @@ fn backtrack<'a, F: Fn(u32, u32, u32) -> bool>(
         info.lhs_bits[bit_idx as usize] = current_lhs_bit;
         info.carries[bit_idx as usize + 1] = sum >> 1;
 
+        #[cfg(not(kani))]
         backtrack(bit_idx + 1, v_hash | (v_bit << bit_idx), info);
+        #[cfg(kani)]
+        contract::backtrack_rec(bit_idx + 1, v_hash | (v_bit << bit_idx), info);
+    }
+}
+
+/// Verification hooks: the recursive call is replaced by its contract, and the
+/// contract can see the search state.
+#[cfg(kani)]
+pub mod contract {
+    use super::*;
+
+    pub fn backtrack_rec<'a, F: Fn(u32, u32, u32) -> bool>(
+        bit_idx: u32,
+        v_hash: u32,
+        info: &mut HashGenInfo<'a, F>,
+    ) {
+        backtrack(bit_idx, v_hash, info)
+    }
+    pub fn backtrack_rec_body<'a, F: Fn(u32, u32, u32) -> bool>(
+        bit_idx: u32,
+        v_hash: u32,
+        info: &mut HashGenInfo<'a, F>,
+    ) {
+        backtrack(bit_idx, v_hash, info)
+    }
+    pub struct State<'b> {
+        pub s: &'b mut u32,
+        pub hash1: u32,
+        pub low_bit_len: u32,
+        pub low_bits: &'b mut u32,
+        pub target: u32,
+        pub carries: &'b mut [u32],
+        pub lhs_bits: &'b mut [u32],
+        pub results: &'b mut Vec<u32>,
+    }
+    impl<'a, F: Fn(u32, u32, u32) -> bool> HashGenInfo<'a, F> {
+        pub fn state(&mut self) -> State<'_> {
+            State {
+                s: &mut self.s,
+                hash1: self.hash1,
+                low_bit_len: self.low_bit_len,
+                low_bits: &mut self.low_bits,
+                target: self.target,
+                carries: self.carries,
+                lhs_bits: self.lhs_bits,
+                results: self.results,
+            }
+        }
     }
 }
 
-- 
2.43.0


From 4ff2f867fbd4e7161296cbc3c97da1f2eede0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 10/17] fix: the shortest pkg2 directory name length overflowed
 when negated

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e392b0f..a0a6488 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -522,7 +522,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -534,7 +534,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -559,7 +559,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(String::new())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let offset = self.pos.get();
             let bytes = self.resolve_pkg2_dir_raw(offset, length)?;
 
-- 
2.43.0


From ae84e0028268bb4052e82cfb113e30d5c888d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 11/17] fix: negative string lengths and bad string offsets are
 errors instead of overflows

---
 src/reader.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a0a6488..bf84ba5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -439,6 +439,18 @@ impl<'a> WzSliceReader<'a> {
             Ok((-sl).into())
         }
     }
+    /// a stored length can't be negative
+    #[inline]
+    fn checked_str_len(&self, len: i32) -> Result<usize> {
+        usize::try_from(len).map_err(|_| Error::OutOfBounds(len as usize, self.get_size()))
+    }
+    /// position of a string stored at an offset relative to the image
+    #[inline]
+    fn checked_str_offset(&self, base: usize, append: i32) -> Result<usize> {
+        base.checked_add_signed(append as isize)
+            .filter(|pos| self.is_valid_pos(*pos))
+            .ok_or(Error::OutOfBounds(append as usize, self.get_size()))
+    }
     pub fn read_unicode_string(&self, sl: i8) -> Result<String> {
         let len = self.read_unicode_str_len(sl)?;
 
@@ -446,7 +458,7 @@ impl<'a> WzSliceReader<'a> {
             return Ok(String::new());
         }
 
-        let unicode_u8_len = (len * 2) as usize;
+        let unicode_u8_len = self.checked_str_len(len)? * 2;
 
         let string =
             self.resolve_wz_string_meta(&WzStringType::Unicode, self.pos.get(), unicode_u8_len)?;
@@ -456,7 +468,8 @@ impl<'a> WzSliceReader<'a> {
         Ok(string)
     }
     pub fn read_ascii_string(&self, sl: i8) -> Result<String> {
-        let len = self.read_ascii_str_len(sl)? as usize;
+        let len = self.read_ascii_str_len(sl)?;
+        let len = self.checked_str_len(len)?;
         if len == 0 {
             return Ok(String::new());
         }
@@ -486,7 +499,8 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Empty => Ok(WzStringMeta::empty()),
             WzStringType::Unicode => {
                 if small_len == i8::MAX {
-                    let length = self.read_i32()? as u32 * 2;
+                    let length = self.read_i32()?;
+                    let length = self.checked_str_len(length)? as u32 * 2;
                     /* remember skip char reading */
                     let meta = WzStringMeta::new_unicode(self.pos.get(), length);
                     self.skip(length as usize);
@@ -501,8 +515,9 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Ascii => {
                 if small_len == i8::MIN {
                     let length = self.read_i32()?;
+                    let length = self.checked_str_len(length)?;
                     let meta = WzStringMeta::new_ascii(self.pos.get(), length as u32);
-                    self.skip(length as usize);
+                    self.skip(length);
                     Ok(meta)
                 } else {
                     let length = (-small_len) as u32;
@@ -586,7 +601,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_at_offset(offset + append_offset as usize)
+                self.read_wz_string_at_offset(self.checked_str_offset(offset, append_offset)?)
             }
             _ => Ok(String::new()),
         }
@@ -599,7 +614,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string_meta(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_meta_at(wz_img_offset + append_offset as usize)
+                self.read_wz_string_meta_at(self.checked_str_offset(wz_img_offset, append_offset)?)
             }
             _ => Ok(WzStringMeta::empty()),
         }
-- 
2.43.0


From 26e75f37c1cf498b5b01290139a14c92c3032e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 12/17] fix: unencrypted string helpers return an error on
 truncated data

---
 src/reader.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index bf84ba5..4e8aacb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -442,7 +442,10 @@ impl<'a> WzSliceReader<'a> {
     /// a stored length can't be negative
     #[inline]
     fn checked_str_len(&self, len: i32) -> Result<usize> {
-        usize::try_from(len).map_err(|_| Error::OutOfBounds(len as usize, self.get_size()))
+        if len < 0 {
+            return Err(Error::OutOfBounds(len as usize, self.get_size()));
+        }
+        Ok(len as usize)
     }
     /// position of a string stored at an offset relative to the image
     #[inline]
@@ -851,8 +854,12 @@ pub fn read_wz_string_block(buf: &[u8], offset: usize) -> Result<String> {
     match string_type {
         0 | 0x73 => read_wz_string(&buf[1..]),
         1 | 0x1B => {
-            let append_offset = read_i32_at(buf, 1)? as usize;
-            read_wz_string(&buf[append_offset + offset..])
+            let append_offset = read_i32_at(buf, 1)?;
+            let string = offset
+                .checked_add_signed(append_offset as isize)
+                .and_then(|pos| buf.get(pos..))
+                .ok_or(Error::OutOfBounds(append_offset as usize, buf.len()))?;
+            read_wz_string(string)
         }
         _ => Ok(String::new()),
     }
@@ -886,7 +893,7 @@ pub fn read_wz_long(buf: &[u8], offset: Option<usize>) -> Result<i64> {
 
 pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
     let len;
-    let mut offset: i32 = 0;
+    let mut offset: usize = 0;
 
     if sl == i8::MAX {
         len = read_i32_at(buf, 0)?;
@@ -899,16 +906,18 @@ pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
         return Ok(String::new());
     }
 
-    let strvec: Vec<u16> = (0..len)
-        .map(|i| resolve_unicode_char(read_u16_at(buf, (i * 2 + offset) as usize).unwrap(), i))
-        .collect();
+    let mut strvec: Vec<u16> = Vec::new();
+    for i in 0..len {
+        let c = read_u16_at(buf, i as usize * 2 + offset)?;
+        strvec.push(resolve_unicode_char(c, i));
+    }
 
     Ok(String::from_utf16_lossy(&strvec).to_string())
 }
 
 pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
     let len: i32;
-    let mut offset: i32 = 0;
+    let mut offset: usize = 0;
 
     if sl == i8::MIN {
         len = read_i32_at(buf, 0)?;
@@ -921,9 +930,11 @@ pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
         return Ok(String::new());
     }
 
-    let strvec: Vec<u8> = (0..len)
-        .map(|i| resolve_ascii_char(read_u8_at(buf, (i + offset) as usize).unwrap(), i))
-        .collect();
+    let mut strvec: Vec<u8> = Vec::new();
+    for i in 0..len {
+        let c = read_u8_at(buf, i as usize + offset)?;
+        strvec.push(resolve_ascii_char(c, i));
+    }
 
     Ok(String::from_utf8_lossy(&strvec).to_string())
 }
-- 
2.43.0


From 422ad78769770649c49ffc00132bf9d743b864b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 13/17] fix: DXT images whose width is not a multiple of four
 were scrambled

---
 src/property/png.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 6f93784..0b48b31 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -382,7 +382,7 @@ fn get_image_from_dxt3(
         })?;
 
     // combine image buffer
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -404,7 +404,7 @@ fn get_image_from_dxt3(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt3(&mut alpha_table, &chunk[..8]);
 
@@ -416,6 +416,10 @@ fn get_image_from_dxt3(
 
             for j in 0..4 {
                 for i in 0..4 {
+                    // the last blocks of a row or column may reach over the edge
+                    if x + i >= width || y + j >= height {
+                        continue;
+                    }
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -479,7 +483,7 @@ fn get_image_from_dxt5(
             Ok(acc)
         })?;
 
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -502,7 +506,7 @@ fn get_image_from_dxt5(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = ((y / 4 * width.div_ceil(4) + x / 4) * 16) as usize;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt5(&mut alpha_table, chunk[0], chunk[1]);
             expand_alpha_index_table_dxt5(&mut alpha_idx_table, &chunk[2..8]);
@@ -515,6 +519,10 @@ fn get_image_from_dxt5(
 
             for j in 0..4 {
                 for i in 0..4 {
+                    // the last blocks of a row or column may reach over the edge
+                    if x + i >= width || y + j >= height {
+                        continue;
+                    }
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
-- 
2.43.0


From 65f7d71ed703ac392053ff9199bf697f0999748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 14/17] fix: hashing a version of seven or more digits
 overflowed

---
 src/util/version/pkg1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 1bd785f..98c023b 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -21,7 +21,9 @@ impl VersionGen {
 
         for i in bind_version.chars() {
             let char_code = i.to_ascii_lowercase() as u32;
-            version_hash = version_hash * 32 + char_code + 1;
+            version_hash = version_hash
+                .wrapping_mul(32)
+                .wrapping_add(char_code + 1);
         }
         version_hash
     }
-- 
2.43.0


From c83706cf51431f9b96cf974a33bd830fca8c31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 15/17] verif hook: expose where texts and pictures are stored
 under cfg(kani)

---
 src/property/png.rs    | 8 ++++++++
 src/property/string.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/property/png.rs b/src/property/png.rs
index 0b48b31..73ac471 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -893,3 +893,11 @@ fn get_image_from_bc7(
     )?;
     Ok(img_buffer.into())
 }
+
+/// Verification hook: where and how the picture is stored.
+#[cfg(kani)]
+impl WzPng {
+    pub fn parts(&self) -> (&Arc<reader::WzReader>, usize, usize, u32, u32) {
+        (&self.reader, self.offset, self.block_size, self.format1, self.format2)
+    }
+}
diff --git a/src/property/string.rs b/src/property/string.rs
index 12d609c..85f2a4d 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -376,3 +376,11 @@ mod test {
         Ok(())
     }
 }
+
+/// Verification hook: where the text is stored.
+#[cfg(kani)]
+impl WzString {
+    pub fn parts(&self) -> (&Arc<WzReader>, usize, u32) {
+        (&self.reader, self.offset, self.length)
+    }
+}
-- 
2.43.0


From 2d43bee5cc9a971f4ef5e23f8e2e3f850f862a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 16/17] fix: get_node reports a missing path component instead
 of reading on behind it

---
 src/util/parse_property.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 56b6994..fe5f51e 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -422,6 +422,7 @@ pub fn get_node(
     while let Some(current_name) = current_path {
         let entry_count = reader.read_wz_int()?;
         let next_path = pathes.next();
+        current_path = None;
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
             let property_type = reader.read_u8()?;
@@ -495,9 +496,6 @@ pub fn get_node(
             }
         }
 
-        if next_path.is_none() {
-            break;
-        }
     }
 
     Err(WzPropertyParseError::NodeNotFound)
-- 
2.43.0


From cb3ae9f19b1b724433caf17aa0167d178b6402dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 17/17] fix: get_node finds the children of canvases, raw data
 and convexes

---
 src/util/parse_property.rs | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index fe5f51e..878c3c2 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -475,11 +475,40 @@ pub fn get_node(
                 }
                 9 => {
                     if name == current_name {
-                        current_path = next_path;
-                        // skip block size
-                        reader.skip(4);
-                        reader.read_wz_string_block_meta(origin_offset)?;
+                        let block_size = reader.read_u32()?;
+                        let end_of_block = reader.pos.get() + block_size as usize;
+                        let extend_type = reader.read_wz_string_block(origin_offset)?;
+                        let has_child = match extend_type.as_str() {
+                            "Property" => true,
+                            "Canvas" => {
+                                reader.skip(1);
+                                reader.read_u8()? == 1
+                            }
+                            "RawData" => reader.read_u8()? == 0x01 && reader.read_u8()? == 1,
+                            "Shape2D#Convex2D" => {
+                                // the elements have no size, they can only be parsed together
+                                let convex = parse_more(
+                                    None,
+                                    org_reader,
+                                    reader,
+                                    end_of_block,
+                                    origin_offset,
+                                    name.into(),
+                                    &extend_type,
+                                )?;
+                                let rest: Vec<&str> = next_path.into_iter().chain(pathes).collect();
+                                let node = convex.1.read().unwrap().at_path(&rest.join("/"));
+                                let node = node.ok_or(WzPropertyParseError::NodeNotFound)?;
+                                let name = node.read().unwrap().name.clone();
+                                return Ok((name, node));
+                            }
+                            _ => false,
+                        };
+                        if !has_child {
+                            return Err(WzPropertyParseError::NodeNotFound);
+                        }
                         reader.skip(2);
+                        current_path = next_path;
                         break;
                     } else {
                         let block_size = reader.read_u32()?;
@@ -495,7 +524,6 @@ pub fn get_node(
                 }
             }
         }
-
     }
 
     Err(WzPropertyParseError::NodeNotFound)
-- 
2.43.0

