From 7ed9c8cfd041b2b7e3473ca31a5c11a4539718c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 01/18] fix: keep the last entry when the element size is a
 multiple of plaintext_bits

---
 src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0d389d5..bcb6c7a 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -230,7 +230,12 @@ pub mod format {
     entry_bit_len: usize,
     total_bit_len: usize,
   ) -> Vec<u8> {
-    let remainder = total_bit_len % entry_bit_len;
+    // Number of bits held by the last entry: all of them when the total length
+    // is a multiple of the entry length
+    let remainder = match total_bit_len % entry_bit_len {
+      0 => entry_bit_len,
+      r => r,
+    };
     let mut bits = Vec::with_capacity(entry_bit_len * v.len());
     for i in 0..v.len() {
       // We extract either the full amount of bits, or the remainder from
-- 
2.43.0


From ba2ce084bb4db25c7331a22ad762314f66d0472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 02/18] fix: add the query indicator modulo 2^32 in index
 queries

---
 src/api.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 4fc5465..211a06d 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,9 +9,7 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{
-  ErrorOverflownAdd, ErrorQueryParamsReused, ResultBoxedError,
-};
+use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -284,12 +282,7 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
     lhs.clone_from(&self.lhs.clone());
-    let (result, check) = lhs[row_index].overflowing_add(query_indicator);
-    if !check {
-      lhs[row_index] = result;
-    } else {
-      return Err(Box::new(ErrorOverflownAdd {}));
-    }
+    lhs[row_index] = lhs[row_index].wrapping_add(query_indicator);
     Ok(Query(lhs))
   }
 
-- 
2.43.0


From 85581580a7ec4f6b12b79e963b18d9d5cf898b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 03/18] fix: write all of the base parameters to file, so that
 load reads them back

---
 src/db/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 0a76fbc..abac3f3 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -4,7 +4,6 @@ mod kv;
 use std::fs;
 
 use serde::{Deserialize, Serialize};
-use serde_json::json;
 
 use crate::errors::ResultBoxedError;
 use crate::utils::matrices::*;
@@ -48,12 +47,11 @@ pub trait BaseParams {
       .collect()
   }
   /// Writes the params struct as JSON to file
-  fn write_to_file(&self, path: &str) -> ResultBoxedError<()> {
-    let json = json!({
-      "lhs_seed": self.get_public_seed(),
-      "rhs": self.get_rhs(),
-    });
-    Ok(serde_json::to_writer(&fs::File::create(path)?, &json)?)
+  fn write_to_file(&self, path: &str) -> ResultBoxedError<()>
+  where
+    Self: Serialize,
+  {
+    Ok(serde_json::to_writer(&fs::File::create(path)?, self)?)
   }
   /// Computes s*(A*DB) using the RHS of the public parameters
   fn mult_right(&self, s: &[u32]) -> ResultBoxedError<Vec<u32>> {
-- 
2.43.0


From 3b7e8963452f402d0ea89dd44b02b27a65083426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 04/18] fix: return file and parse errors from from_json_file
 instead of panicking

---
 src/api.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 211a06d..89c72c5 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -33,9 +33,8 @@ impl Shard {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let elements: Vec<String> = serde_json::from_str(&file_contents).unwrap();
+    let file_contents: String = fs::read_to_string(file_path)?.parse()?;
+    let elements: Vec<String> = serde_json::from_str(&file_contents)?;
     Shard::from_base64_strings(&elements, lwe_dim, m, elem_size, plaintext_bits)
   }
 
@@ -151,9 +150,8 @@ impl KVShard {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents).unwrap();
+    let file_contents: String = fs::read_to_string(file_path)?.parse()?;
+    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents)?;
     let keys: Vec<String> = enc_kvs.iter().map(|e| e.key.clone()).collect();
     let values: Vec<String> = enc_kvs.iter().map(|e| e.value.clone()).collect();
     KVShard::from_base64_strings(
-- 
2.43.0


From b1ba15348755f54504db1f9dfc52291b800743db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 05/18] fix: reject queries of the wrong length instead of
 panicking in respond

---
 src/api.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/api.rs b/src/api.rs
index 89c72c5..131c0ec 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,7 +9,9 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
+use crate::errors::{
+  ErrorQueryParamsReused, ErrorUnexpectedInputSize, ResultBoxedError,
+};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -67,6 +69,7 @@ impl Shard {
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
     let q = q.as_slice();
+    check_query_len(q, self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q, i))
@@ -212,6 +215,7 @@ impl KVShard {
   /// Produces a serialized response (base64-encoded) to a serialized
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
+    check_query_len(q.as_slice(), self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q.as_slice(), i))
@@ -448,6 +452,18 @@ impl Query {
   }
 }
 
+/// Rejects queries whose length is not the height of the DB matrix
+fn check_query_len(q: &[u32], matrix_height: usize) -> ResultBoxedError<()> {
+  if q.len() != matrix_height {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "query_len: {}, matrix_height: {}",
+      q.len(),
+      matrix_height,
+    ))));
+  }
+  Ok(())
+}
+
 /// The `Response` object wraps a response from a single shard
 #[derive(Clone, Serialize, Deserialize)]
 pub struct Response(Vec<u32>);
-- 
2.43.0


From 44b7125f76a83623bcb1b260c55e396338c5f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 06/18] fix: reject KV responses of the wrong length instead of
 panicking

---
 src/api.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api.rs b/src/api.rs
index 131c0ec..b83739e 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -375,9 +375,20 @@ impl QueryParams<KVDatabase, FilterParams> {
     }
     let fp = self.extra_params.as_ref().unwrap();
 
+    // check that the response covers the whole row
+    let row_width =
+      KVDatabase::get_row_width(self.elem_size, self.plaintext_bits);
+    if resp.0.len() != row_width {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "resp_len: {}, row_width: {}",
+        resp.0.len(),
+        row_width,
+      ))));
+    }
+
     // perform division and rounding
     Ok(
-      (0..KVDatabase::get_row_width(self.elem_size, self.plaintext_bits))
+      (0..row_width)
         .map(|i| {
           let left = resp.0[i];
           let right = self.rhs[i];
-- 
2.43.0


From 810f57b4956b0755d7bcba789899526ac57cc6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 07/18] fix: return an error for elements that are too short
 instead of panicking

---
 src/db/index.rs | 10 +++++++++-
 src/db/kv.rs    | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index e20a4c1..49e6a5b 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -180,6 +180,14 @@ fn construct_row(
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
   let bits = bytes_to_bits_le(&bytes);
+  if bits.len() < row_width.saturating_sub(1) * plaintext_bits {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element of {} bits is too short for {} entries of {} bits",
+      bits.len(),
+      row_width,
+      plaintext_bits,
+    ))));
+  }
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
     if end_bound < bits.len() {
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 6badfc3..a0918c7 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -6,7 +6,7 @@ use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
 
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -251,6 +251,14 @@ fn construct_row(
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
   let bits = bytes_to_bits_le(&bytes);
+  if bits.len() < row_width.saturating_sub(1) * plaintext_bits {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element of {} bits is too short for {} entries of {} bits",
+      bits.len(),
+      row_width,
+      plaintext_bits,
+    ))));
+  }
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
     if end_bound < bits.len() {
-- 
2.43.0


From 9162cc1a1a0add99136ba4177250671af529cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 08/18] fix: return an error when there are fewer elements than
 matrix rows

---
 src/db/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/db/index.rs b/src/db/index.rs
index 49e6a5b..c13a478 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -205,6 +205,13 @@ fn construct_rows(
   elem_size: usize,
   plaintext_bits: usize,
 ) -> ResultBoxedError<Vec<Vec<u32>>> {
+  if elements.len() < m {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "number of elements: {}, matrix height: {}",
+      elements.len(),
+      m,
+    ))));
+  }
   let row_width = IndexDatabase::get_row_width(elem_size, plaintext_bits);
 
   let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {
-- 
2.43.0


From 9dea2b65c63811f77b969ddffdb960b9500629f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 09/18] fix: return an error for empty or uneven KV databases
 instead of panicking

---
 src/db/kv.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/db/kv.rs b/src/db/kv.rs
index a0918c7..4d1f4cc 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -124,7 +124,13 @@ impl KVDatabase {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let row_width = kvs[0].value.len();
+    let row_width = Self::get_row_width(elem_size, plaintext_bits);
+    if kvs.is_empty() || kvs.iter().any(|kv| kv.value.len() != row_width) {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "a KV database needs at least one key, and {} entries in each value",
+        row_width,
+      ))));
+    }
     let filters = StorageFilters::from_kvs(kvs, row_width, plaintext_bits)?;
 
     Ok(Self {
-- 
2.43.0


From f932b755f8d8f0f30fda9f37df922c1f172d9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 10/18] fix: build the shared binary fuse helpers for the
 binary-fuse-modp feature alone

---
 bff-modp/src/prelude/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bff-modp/src/prelude/mod.rs b/bff-modp/src/prelude/mod.rs
index a524363..ceb2ac2 100644
--- a/bff-modp/src/prelude/mod.rs
+++ b/bff-modp/src/prelude/mod.rs
@@ -1,6 +1,6 @@
 //! Common methods for xor filters.
 
-#[cfg(feature = "binary-fuse")]
+#[cfg(any(feature = "binary-fuse", feature = "binary-fuse-modp"))]
 pub mod bfuse;
 #[cfg(feature = "binary-fuse-modp")]
 pub mod bfusep;
-- 
2.43.0


From 296ffd61a927c08a85aa64b2156c10ccaa33a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 11/18] fix: make mix256 depend on the order of the words of
 the key

---
 bff-modp/src/prelude/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bff-modp/src/prelude/mod.rs b/bff-modp/src/prelude/mod.rs
index ceb2ac2..d9ba8df 100644
--- a/bff-modp/src/prelude/mod.rs
+++ b/bff-modp/src/prelude/mod.rs
@@ -50,15 +50,15 @@ pub fn mix256<'a>(key: &[u64; 4], seed: &[u8]) -> u64 {
     for i in 0..4 {
         seeds[i] = u64::from_le_bytes(seed[8 * i..8 * (i + 1)].try_into().unwrap());
     }
-    key.into_iter()
-        .map(|k| {
-            let mut mixed = 0u64;
-            for i in 0..4 {
-                mixed = murmur3::mix64(mixed.overflowing_add(mix(*k, seeds[i])).0);
-            }
-            mixed
-        })
-        .fold(0, |acc, r| acc.overflowing_add(r).0)
+    // The state is chained through the words of the key, so that keys holding the same words in a
+    // different order have different hashes.
+    key.into_iter().fold(0u64, |acc, k| {
+        let mut mixed = acc;
+        for i in 0..4 {
+            mixed = murmur3::mix64(mixed.overflowing_add(mix(*k, seeds[i])).0);
+        }
+        mixed
+    })
 }
 
 /// Computes a fingerprint.
-- 
2.43.0


From 639beeaee5898c1cf752b336e136b9741ecab565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 12/18] fix: return an error from fuse filter construction on
 too few keys

---
 bff-modp/src/prelude/fuse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bff-modp/src/prelude/fuse.rs b/bff-modp/src/prelude/fuse.rs
index fcaf571..31af04b 100644
--- a/bff-modp/src/prelude/fuse.rs
+++ b/bff-modp/src/prelude/fuse.rs
@@ -90,6 +90,10 @@ macro_rules! fuse_from_impl(
             let capacity = (FUSE_OVERHEAD * num_keys as f64) as usize;
             let capacity = capacity / SLOTS * SLOTS;
             let segment_length = capacity / SLOTS;
+            if segment_length == 0 {
+                // Too few keys for a fuse graph of SLOTS non-empty segments.
+                return Err("Failed to construct fuse filter.");
+            }
 
             #[allow(non_snake_case)]
             let mut H: Box<[HSet]> = make_block!(with capacity sets);
-- 
2.43.0


From 5925ee8e654fce36554365743f9eab2f7676b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 13/18] fix: reset and reseed binary fuse construction after a
 counter overflow

---
 bff-modp/src/prelude/bfuse.rs  | 17 +++++++++++++----
 bff-modp/src/prelude/bfusep.rs | 16 ++++++++++++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/bff-modp/src/prelude/bfuse.rs b/bff-modp/src/prelude/bfuse.rs
index a2f2430..2cda806 100644
--- a/bff-modp/src/prelude/bfuse.rs
+++ b/bff-modp/src/prelude/bfuse.rs
@@ -147,13 +147,13 @@ macro_rules! bfuse_from_impl(
                     let hash = reverse_order[i];
                     let (index1, index2, index3) = hash_of_hash(hash, segment_length, segment_length_mask, segment_count_length);
                     let (index1, index2, index3) = (index1 as usize, index2 as usize, index3 as usize);
-                    t2count[index1] += 4;
+                    t2count[index1] = t2count[index1].wrapping_add(4);
                     // t2count[index1] ^= 0; NOOP
                     t2hash[index1] ^= hash;
-			              t2count[index2] += 4;
+			              t2count[index2] = t2count[index2].wrapping_add(4);
 			              t2count[index2] ^= 1;
 			              t2hash[index2] ^= hash;
-			              t2count[index3] += 4;
+			              t2count[index3] = t2count[index3].wrapping_add(4);
 			              t2count[index3] ^= 2;
 			              t2hash[index3] ^= hash;
 
@@ -173,9 +173,18 @@ macro_rules! bfuse_from_impl(
 					                      t2hash[index3] ^= hash;
                         }
                     }
-                    error = t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
+                    error |= t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
                 }
                 if error {
+                    // A slot counter overflowed; reset for a retry.
+                    for i in 0..size {
+                        reverse_order[i] = 0;
+                    }
+                    for i in 0..capacity {
+                        t2count[i] = 0;
+                        t2hash[i] = 0;
+                    }
+                    seed = splitmix64(&mut rng);
                     continue;
                 }
 
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 0b85325..78f9e3d 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -96,13 +96,13 @@ macro_rules! bfusep_from_impl(
                     let hash = reverse_order[i];
                     let (index1, index2, index3) = hash_of_hash(hash, segment_length, segment_length_mask, segment_count_length);
                     let (index1, index2, index3) = (index1 as usize, index2 as usize, index3 as usize);
-                    t2count[index1] += 4;
+                    t2count[index1] = t2count[index1].wrapping_add(4);
                     // t2count[index1] ^= 0; NOOP
                     t2hash[index1] ^= hash;
-			              t2count[index2] += 4;
+			              t2count[index2] = t2count[index2].wrapping_add(4);
 			              t2count[index2] ^= 1;
 			              t2hash[index2] ^= hash;
-			              t2count[index3] += 4;
+			              t2count[index3] = t2count[index3].wrapping_add(4);
 			              t2count[index3] ^= 2;
 			              t2hash[index3] ^= hash;
 
@@ -122,9 +122,17 @@ macro_rules! bfusep_from_impl(
 					                      t2hash[index3] ^= hash;
                         }
                     }
-                    error = t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
+                    error |= t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
                 }
                 if error {
+                    // A slot counter overflowed; reset for a retry.
+                    for i in 0..size {
+                        reverse_order[i] = 0;
+                    }
+                    for i in 0..capacity {
+                        t2count[i] = 0;
+                        t2hash[i] = 0;
+                    }
                     continue;
                 }
 
-- 
2.43.0


From 0c8593c029703b837a8d0f6ab3143c7ed13670b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 14/18] fix: check the number of data items in
 BinaryFuseP32::from_vec

---
 bff-modp/src/bfusep32.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index e9351ab..d3cc8f0 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -83,8 +83,7 @@ impl BinaryFuseP32 {
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
-        let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 100_000)
+        Self::from_slice(seed, keys.as_slice(), data, label, ptxt_mod)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
-- 
2.43.0


From 02a8f7c48e65f762e10b12e70e11f172846d4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 15/18] fix: return filter construction errors from KVDatabase
 instead of panicking

---
 src/db/kv.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db/kv.rs b/src/db/kv.rs
index 4d1f4cc..6a5da8f 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -50,7 +50,7 @@ impl StorageFilters {
     let keys: Vec<[u64; 4]> = kvs.iter().map(|kv| kv.key).collect();
     let mut seed = [0u8; 32];
     OsRng.fill_bytes(&mut seed);
-    let filters: Vec<BinaryFuseP32> = (0..row_width)
+    let filters = (0..row_width)
       .map(|i| {
         let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
         BinaryFuseP32::from_slice(
@@ -60,9 +60,8 @@ impl StorageFilters {
           i as u64,
           2u64.pow(plaintext_bits as u32),
         )
-        .unwrap()
       })
-      .collect();
+      .collect::<Result<Vec<BinaryFuseP32>, &'static str>>()?;
     Ok(StorageFilters {
       filters: filters.clone(),
       seed,
-- 
2.43.0


From 0dcfeb881493ed9f76983b5f73c058c282cbc1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 16/18] fix: draw a fresh seed for each attempt at building the
 filters of a KV database

---
 bff-modp/src/bfusep32.rs |  2 +-
 src/db/kv.rs             | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index d3cc8f0..c90c930 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -78,7 +78,7 @@ impl BinaryFuseP32 {
         if data.len() != keys.len() {
             return Err("The data should correspond to the number of keys");
         }
-        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 100_000)
+        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 1)
     }
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 6a5da8f..8270f35 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -32,6 +32,9 @@ impl KeyValue {
   }
 }
 
+/// The number of seeds tried for building the filters of a KV database
+const MAX_FILTER_SEEDS: usize = 100;
+
 #[derive(Clone, Debug, Serialize, Deserialize)]
 struct StorageFilters {
   filters: Vec<BinaryFuseP32>,
@@ -46,10 +49,28 @@ impl StorageFilters {
     kvs: &[KeyValue],
     row_width: usize,
     plaintext_bits: usize,
+  ) -> ResultBoxedError<StorageFilters> {
+    // A seed for which the filters cannot be built is of no use in another
+    // attempt, so each of them draws its own.
+    for _ in 0..MAX_FILTER_SEEDS {
+      let mut seed = [0u8; 32];
+      OsRng.fill_bytes(&mut seed);
+      if let Ok(filters) =
+        Self::from_kvs_with_seed(kvs, row_width, plaintext_bits, seed)
+      {
+        return Ok(filters);
+      }
+    }
+    Err("Failed to construct the filters of the KV database".into())
+  }
+
+  fn from_kvs_with_seed(
+    kvs: &[KeyValue],
+    row_width: usize,
+    plaintext_bits: usize,
+    seed: [u8; 32],
   ) -> ResultBoxedError<StorageFilters> {
     let keys: Vec<[u64; 4]> = kvs.iter().map(|kv| kv.key).collect();
-    let mut seed = [0u8; 32];
-    OsRng.fill_bytes(&mut seed);
     let filters = (0..row_width)
       .map(|i| {
         let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
-- 
2.43.0


From 29dd17d55665e479fd4d3a18c421703d29ec850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 17/18] fix: give the three ternary values intervals of equal
 size

The first interval held one value more than the other two.
---
 src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index bcb6c7a..be8d3d4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -107,17 +107,17 @@ pub mod matrices {
     // that rounding is performed to the next _lowest_ integer.
     let mut val = OsRng.next_u32();
     // If the value sampled sits in the interval:
-    //                `interval*3 < val < U32::MAX`
+    //                `interval*3 <= val <= U32::MAX`
     // then we need to reject it and resample until it firs below `interval*3`
-    while val > TERNARY_REJECTION_SAMPLING_MAX {
+    while val >= TERNARY_REJECTION_SAMPLING_MAX {
       val = OsRng.next_u32();
     }
     // Now we return {0,1,-1} depending on whether the sampled value
     // sits in the first, second or third sampling interval
     let mut tern = 0;
-    if val > TERNARY_INTERVAL_SIZE && val <= TERNARY_INTERVAL_SIZE * 2 {
+    if val >= TERNARY_INTERVAL_SIZE && val < TERNARY_INTERVAL_SIZE * 2 {
       tern = 1;
-    } else if val > TERNARY_INTERVAL_SIZE * 2 {
+    } else if val >= TERNARY_INTERVAL_SIZE * 2 {
       tern = u32::MAX;
     }
     tern
-- 
2.43.0


From b01b77dc51951488d43250c65b3c01669f58e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 18/18] fix: compute 2 to the exponent without wrapping at 32
 bits

---
 pi-rs-cli-utils/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pi-rs-cli-utils/src/lib.rs b/pi-rs-cli-utils/src/lib.rs
index 8ac37cc..49791eb 100644
--- a/pi-rs-cli-utils/src/lib.rs
+++ b/pi-rs-cli-utils/src/lib.rs
@@ -92,7 +92,7 @@ pub fn parse_from_env() -> CLIFlags {
 
 pub fn parse_exp_to_usize(v: String) -> usize {
   let exp: u32 = v.parse().unwrap();
-  let res = 2_u32.pow(exp) as usize;
+  let res = 2_usize.checked_pow(exp).unwrap();
   res
 }
 
-- 
2.43.0

