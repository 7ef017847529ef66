From d41656b865653079c74185533262ecdbfe01f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 01/18] fix: size master keys so that the last attribute value
 can be used

Attribute values go from 1 to max_attribute_creations included and index the
master key vectors directly: the last creation announced by a policy could not
be used (key generation failed, encryption panicked).
---
 src/core/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 12be553..a48d9f2 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -44,8 +44,9 @@ impl<S: AbeScheme> Engine<S> {
         ),
         FormatErr,
     > {
+        // attribute values range from 1 to `max_attribute_creations` included
         self.sch
-            .generate_master_key(policy.max_attribute_creations as usize)
+            .generate_master_key(policy.max_attribute_creations as usize + 1)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From bb42b840c2d946c913ef80f019b040b96a9f9548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 02/18] fix: reject attribute values unknown to the public key
 on encryption

The check compared the number of attributes with the key size: an attribute
value out of range caused a panic (an abort through the FFI), and an empty
public key an arithmetic underflow.
---
 src/core/gpsw/scheme.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index dda938a..3f06733 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -489,11 +489,10 @@ impl<G: BilinearMap> Gpsw<G> {
         gamma: &[u32],
         pub_key: &GpswMasterPublicKey<G>,
     ) -> Result<GpswCipherText<G>, FormatErr> {
-        if pub_key.t_i.len() <= gamma.len() {
+        if let Some(value) = gamma.iter().find(|i| **i as usize >= pub_key.t_i.len()) {
             return Err(FormatErr::InternalOperation(format!(
-                "invalid attributes: gamma value incorrect (value: {}, max expected size: {})",
-                gamma.len(),
-                pub_key.t_i.len() - 1
+                "invalid attributes: gamma value incorrect (value: {value}, expected less than: {})",
+                pub_key.t_i.len()
             )));
         }
         let s = self.group.gen_random_scalar()?;
-- 
2.43.0


From a44168cccef2ca9bdaf30ca573a9e53981023a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 03/18] fix: return an error when delegating with a delegation
 key that is too small

---
 src/core/gpsw/scheme.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 3f06733..158a847 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -416,7 +416,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "attribute unknown to the master public delegation key".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -459,7 +466,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "attribute unknown to the master public delegation key".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
-- 
2.43.0


From 1cc8a53769685a9bc24d65a5f4d5ab1c36576b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 04/18] fix: check element counts when loading ciphertexts and
 decryption keys

Inconsistent counts were accepted and caused an out of bounds panic on
decryption.
---
 src/core/gpsw/scheme.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 158a847..b0afba1 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -188,6 +188,11 @@ impl<G: BilinearMap> AsBytes for GpswDecryptionKey<G> {
         let raw_d_i = Vec::<G::G3>::try_from_bytes(bytes)?;
         let raw_d_i_len = raw_d_i.len_bytes();
         let msp = MonotoneSpanProgram::<G::Scalar>::try_from_bytes(&bytes[raw_d_i_len..])?;
+        if raw_d_i.len() != msp.rows() {
+            return Err(FormatErr::Deserialization(
+                "deserializing decryption key failed. Data altered?".to_string(),
+            ));
+        }
         let d_i = raw_d_i.iter().map(|g3| G::g3_to_g1(g3)).collect();
 
         Ok(Self { raw_d_i, d_i, msp })
@@ -217,6 +222,11 @@ impl<G: BilinearMap> AsBytes for GpswCipherText<G> {
         let gamma_len = gamma.len_bytes();
         let e_i = Vec::<G::G2>::try_from_bytes(&bytes[gamma_len..])?;
         let e_i_len = e_i.len_bytes();
+        if e_i.len() != gamma.len() {
+            return Err(FormatErr::Deserialization(
+                "deserializing ciphertext failed. Data altered?".to_string(),
+            ));
+        }
         let e_prime = G::Gt::try_from_bytes(&bytes[gamma_len + e_i_len..])?;
 
         Ok(Self {
-- 
2.43.0


From 546c9ede048b581d972ebed9f12c65edfe4972b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 05/18] fix: validate MSP dimensions before allocating

Altered dimensions led to huge allocations (aborting the process) or to an
out of bounds panic on decryption with an empty matrix.
---
 src/core/msp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index c4d9928..59dcd23 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -53,7 +53,14 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         let nb_col: [u8; 4] = bytes[4..8].try_into()?;
         let nb_col = u32::from_be_bytes(nb_col) as usize;
 
-        if bytes.len() < 8 + 4 * nb_row {
+        if nb_row == 0 || nb_col == 0 {
+            return Err(FormatErr::InvalidSize(
+                "an MSP cannot be empty".to_string(),
+            ));
+        }
+        // every attribute and every matrix coefficient takes at least one byte:
+        // do not allocate more than what the input can hold
+        if (bytes.len() - 8) / 4 < nb_row || (bytes.len() - 8) / nb_row < nb_col {
             return Err(FormatErr::InvalidSize(
                 "invalid MSP size read from bytes".to_string(),
             ));
-- 
2.43.0


From fc674aa0dbc3543ea5be6477acdf1deefc991a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 06/18] fix: reject zero-length vectors and short integers when
 deserializing

A zero element count underflowed, truncated i32 bytes caused a panic.
---
 src/core/gpsw/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 5e1233d..980dde6 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -37,6 +37,12 @@ impl AsBytes for i32 {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.len() < 4 {
+            return Err(FormatErr::Deserialization(
+                "cannot deserialize i32 element since input bytes size is less than 4 bytes"
+                    .to_string(),
+            ));
+        }
         Ok(Self::from_be_bytes(bytes[0..4].try_into()?))
     }
 
@@ -74,7 +80,7 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len >= u32::MAX as usize {
+        if len == 0 || len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
-- 
2.43.0


From 7bd9339822fa546d0040ee06e487d8df9e5b627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 07/18] fix: reject truncated header bytes instead of panicking

---
 src/interfaces/hybrid_crypto/statics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 501c569..5ec526c 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -38,6 +38,9 @@ impl<S: SymmetricCrypto> EncryptedHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `encrypted_symmetric_key`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let encrypted_header_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
@@ -74,6 +77,9 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `meta_data`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
-- 
2.43.0


From a18b05bc0299793d8ce386928f6490ef004e1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 08/18] fix: h_get_encrypted_header_size aborted on inputs
 shorter than 4 bytes

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 05a8535..7f024a7 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -559,7 +559,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len == 0 {
+    if encrypted_len < 4 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
-- 
2.43.0


From f42ae73063ec86ed1abdb09634ed03e2928979a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 09/18] fix: python decrypt panicked on truncated encrypted
 data

---
 src/interfaces/pyo3/hybrid_gpsw_aes.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index c66cf42..c2d36d6 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -250,8 +250,12 @@ pub fn encrypt(
 #[pyfunction]
 pub fn decrypt(user_decryption_key_bytes: Vec<u8>, encrypted_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
     let header_size = get_encrypted_header_size(encrypted_bytes.clone())?;
-    let header = &encrypted_bytes[4..4 + header_size as usize];
-    let ciphertext = &encrypted_bytes[4 + header_size as usize..];
+    if encrypted_bytes.len() - 4 < header_size as usize {
+        return Err(PyTypeError::new_err(
+            "Encrypted value is shorter than its announced header",
+        ));
+    }
+    let (header, ciphertext) = encrypted_bytes[4..].split_at(header_size as usize);
 
     let cleartext_header = internal_decrypt_hybrid_header(&user_decryption_key_bytes, header)?;
 
-- 
2.43.0


From b4332b8da31111ac4563028de82126965e27d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 10/18] fix: wasm calls with an unknown cache handle return an
 error

They trapped while holding the registry read lock, after which no cache could
be created or destroyed anymore.
---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 8 +++++---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index c04d558..43691ab 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -156,9 +156,11 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
     let map = DECRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the decryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no decryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no decryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally decrypt symmetric key using given user decryption key
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index f4c5485..a1e902f 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -153,9 +153,11 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
     let map = ENCRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the encryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no encryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no encryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally encrypt symmetric key using given public key
-- 
2.43.0


From ac350cc875af813697c06b36bea617f1abb1c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 11/18] fix: key generation panicked on a policy whose axes
 list unknown attributes

---
 src/core/msp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index 59dcd23..1d2c64e 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -462,7 +462,10 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                 .iter()
                 .position(|r| r == &attr.name)
                 .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
-            let mut val = policy.attribute_to_int[attr]
+            let mut val = policy
+                .attribute_to_int
+                .get(attr)
+                .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?
                 .iter()
                 .map(|attr| Node::Leaf(*attr))
                 .reduce(std::ops::BitOr::bitor)
@@ -473,7 +476,12 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                         break;
                     }
                     val = val
-                        | policy.attribute_to_int[&(attr.axis.clone(), elem.clone()).into()]
+                        | policy
+                            .attribute_to_int
+                            .get(&(attr.axis.clone(), elem.clone()).into())
+                            .ok_or_else(|| {
+                                FormatErr::AttributeNotFound(format!("{}::{elem}", attr.axis))
+                            })?
                             .iter()
                             .map(|attr| Node::Leaf(*attr))
                             .reduce(std::ops::BitOr::bitor)
-- 
2.43.0


From ed96a3593ffd7749c27071683d882a3900e21329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 12/18] fix: overflow on 32-bit targets when checking
 serialized vector sizes

An altered element count could pass the size check in WebAssembly and trap on
the allocation that follows.
---
 src/core/gpsw/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 980dde6..233e5ba 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -89,7 +89,11 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         let res0 = T::try_from_bytes(&bytes[4..])?;
         let res0_len_bytes = res0.len_bytes();
 
-        if 4 + (len - 1) * res0_len_bytes >= bytes.len() {
+        // beware of overflows on 32-bit targets
+        if (len - 1)
+            .checked_mul(res0_len_bytes)
+            .map_or(true, |size| size >= bytes.len() - 4)
+        {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
-- 
2.43.0


From 85eee80383ca68f23bd69a7cfea04182b6cb1721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 13/18] fix: report the required size when a block output
 buffer is too small

As the other FFI functions do, and as announced in the changelog for 1.1.1.
---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 7f024a7..731cda6 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -755,6 +755,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     let allocated = *encrypted_len;
     let len = encrypted_block.len();
+    *encrypted_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated encrypted bytes buffer is too small; need {} bytes",
@@ -763,7 +764,6 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
     }
     std::slice::from_raw_parts_mut(encrypted_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *encrypted_len = len as c_int;
 
     0
 }
@@ -831,6 +831,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     let allocated = *clear_text_len;
     let len = encrypted_block.len();
+    *clear_text_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated clear text buffer is too small; need {} bytes",
@@ -839,7 +840,6 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
     }
     std::slice::from_raw_parts_mut(clear_text_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *clear_text_len = len as c_int;
 
     0
 }
-- 
2.43.0


From de9a595d30595b76e8444c112f25054789110b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 14/18] fix: FFI functions reject null length pointers and
 negative lengths

Null output length or handle pointers were dereferenced, and negative lengths
converted to huge slices (undefined behaviour). Optional inputs with a negative
length are treated as absent, as the block functions already did.
---
 src/interfaces/ffi/generate_gpsw_keys.rs | 11 +++--
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 62 ++++++++++++++----------
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 322db96..01778e1 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,7 +33,8 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
-    if *master_keys_len == 0 {
+    ffi_not_null!(master_keys_len, "The length pointer should not be null");
+    if *master_keys_len <= 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
 
@@ -111,14 +112,15 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
-    if *user_private_key_len == 0 {
+    ffi_not_null!(user_private_key_len, "The length pointer should not be null");
+    if *user_private_key_len <= 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         master_private_key_ptr,
         "Master private key pointer should not be null"
     );
-    if master_private_key_len == 0 {
+    if master_private_key_len <= 0 {
         ffi_bail!("The master private key should not be empty");
     }
     ffi_not_null!(
@@ -213,7 +215,8 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
-    if *new_policy_len == 0 {
+    ffi_not_null!(new_policy_len, "The length pointer should not be null");
+    if *new_policy_len <= 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 731cda6..ee1ff00 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -71,9 +71,10 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
     public_key_ptr: *const c_char,
     public_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     // Policy
@@ -142,14 +143,16 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(symmetric_key_len, "The length pointer should not be null");
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    ffi_not_null!(header_bytes_len, "The length pointer should not be null");
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -179,14 +182,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -260,19 +263,21 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(symmetric_key_len, "The length pointer should not be null");
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    ffi_not_null!(header_bytes_len, "The length pointer should not be null");
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Policy pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -307,14 +312,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -398,11 +403,12 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
     user_decryption_key_ptr: *const c_char,
     user_decryption_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -465,14 +471,15 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(symmetric_key_len, "The length pointer should not be null");
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
 
@@ -513,7 +520,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -528,7 +535,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null() && !additional_data_len.is_null() && *additional_data_len > 0 {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -598,21 +605,22 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(symmetric_key_len, "The length pointer should not be null");
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
     ffi_not_null!(
         user_decryption_key_ptr,
         "The user decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -648,7 +656,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -663,7 +671,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null() && !additional_data_len.is_null() && *additional_data_len > 0 {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -714,7 +722,8 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
-    if *encrypted_len == 0 {
+    ffi_not_null!(encrypted_len, "The length pointer should not be null");
+    if *encrypted_len <= 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
 
@@ -723,7 +732,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -739,7 +748,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     // Data
     ffi_not_null!(data_ptr, "Data pointer should not be null");
-    if data_len == 0 {
+    if data_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(data_ptr.cast::<u8>(), data_len as usize).to_vec();
@@ -786,7 +795,8 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
-    if *clear_text_len == 0 {
+    ffi_not_null!(clear_text_len, "The length pointer should not be null");
+    if *clear_text_len <= 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
 
@@ -795,7 +805,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -811,7 +821,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     // Data
     ffi_not_null!(encrypted_bytes_ptr, "Data pointer should not be null");
-    if encrypted_bytes_len == 0 {
+    if encrypted_bytes_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(
-- 
2.43.0


From 36b96701b34abf4066e8566d0680217e0cd010c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 15/18] fix: key generation panicked on a master key with a
 zero element

---
 src/core/gpsw/scheme.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index b0afba1..7c8e80e 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -392,6 +392,11 @@ impl<G: BilinearMap> Gpsw<G> {
                 ));
             }
             let t_rho_i = &priv_key.t_i[attribute];
+            if *t_rho_i == G::ZERO {
+                return Err(FormatErr::InternalOperation(
+                    "Master private key is invalid: an element is zero".to_string(),
+                ));
+            }
             let di = self.group.g1_gen_exp(&(prod_scal / t_rho_i));
             big_d_i.push(di.0);
             big_raw_d_i.push(di.1)
-- 
2.43.0


From d0ff32c3f23709f10b9900bbbfda1c498606c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 16/18] fix: get_last_error failed on error texts that contain
 a NUL byte

---
 src/interfaces/ffi/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index d93f24f..365f234 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -181,7 +181,7 @@ pub unsafe extern "C" fn get_last_error(
 
     // Build a CString that will cleanup NULL bytes in the middle if needed
     let cs = ffi_unwrap!(
-        CString::new(err.map_or("".to_string(), |e| e.to_string())),
+        CString::new(err.map_or("".to_string(), |e| e.to_string().replace('\0', ""))),
         "failed to convert error to CString"
     );
     // the CString as bytes
-- 
2.43.0


From 3eec41562b2be499eb636e1182b1b4f7e0ac3ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 17/18] fix: get_last_error panicked when the standard error
 output cannot be written

---
 src/interfaces/ffi/error.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index 365f234..bab6876 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -1,6 +1,7 @@
 use std::{
     cell::RefCell,
     ffi::{CStr, CString},
+    io::Write,
     os::raw::{c_char, c_int},
 };
 
@@ -157,6 +158,12 @@ pub unsafe extern "C" fn set_error(error_message_ptr: *const c_char) -> i32 {
     //
 }
 
+/// Tell what is wrong on the standard error output, if there is one: `eprintln!`
+/// panics when it cannot be written to.
+fn complain(message: &str) {
+    let _ = writeln!(std::io::stderr(), "{message}");
+}
+
 /// Get the most recent error as utf-8 bytes, clearing it in the process.
 /// # Safety
 /// - `error_msg`: must be pre-allocated with a sufficient size
@@ -166,15 +173,15 @@ pub unsafe extern "C" fn get_last_error(
     error_len: *mut c_int,
 ) -> c_int {
     if error_msg_ptr.is_null() {
-        eprintln!("get_last_error: must pass a pre-allocated buffer");
+        complain("get_last_error: must pass a pre-allocated buffer");
         return 1;
     }
     if error_len.is_null() {
-        eprintln!("get_last_error: must pass a pre-allocated len with the max buffer length");
+        complain("get_last_error: must pass a pre-allocated len with the max buffer length");
         return 1;
     }
     if *error_len < 1 {
-        eprintln!("get_last_error: the buffer must be at leas one byte long");
+        complain("get_last_error: the buffer must be at leas one byte long");
         return 1;
     }
     let err = LAST_ERROR.with(|prev| prev.borrow_mut().take());
-- 
2.43.0


From eab14df1404cbe03eabcd437e451f66fa6d926dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 18/18] fix: the Python generate_policy cut the number of
 attribute creations to 32 bits

---
 src/interfaces/pyo3/generate_gpsw_keys.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index 6b0c596..22943e1 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -112,11 +112,11 @@ pub fn generate_delegated_key(
 #[pyfunction]
 pub fn generate_policy(
     policy_axis_bytes: Vec<u8>,
-    max_attribute_creations: usize,
+    max_attribute_creations: u32,
 ) -> PyResult<Vec<u8>> {
     let policy_axis: Vec<PolicyAxis> = serde_json::from_slice(&policy_axis_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy Axis deserialization failed: {e}")))?;
-    let mut policy = Policy::new(max_attribute_creations as u32);
+    let mut policy = Policy::new(max_attribute_creations);
     for axis in &policy_axis {
         let attrs = axis
             .attributes
-- 
2.43.0

