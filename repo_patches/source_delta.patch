From ae5ee8e9c8430b620b970135cb37d8d798607526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 01/12] fix: master keys cover every attribute value a policy
 may create

---
 src/core/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 12be553..99b6545 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -44,8 +44,9 @@ impl<S: AbeScheme> Engine<S> {
         ),
         FormatErr,
     > {
+        // the policy numbers its attributes from 1 to `max_attribute_creations`
         self.sch
-            .generate_master_key(policy.max_attribute_creations as usize)
+            .generate_master_key(policy.max_attribute_creations as usize + 1)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From 10fa1c9c399769fd7bb2821acec79a8f18d729c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 02/12] fix: refuse attributes outside the key instead of
 panicking (encrypt, delegation)

---
 src/core/gpsw/scheme.rs | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index dda938a..967b06e 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -416,7 +416,16 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "Monotone Span Program is invalid: msp-row larger than \
+                         delegation-key-inv_t_i"
+                            .to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -459,7 +468,16 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "Monotone Span Program is invalid: msp-row larger than \
+                         delegation-key-inv_t_i"
+                            .to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -493,15 +511,25 @@ impl<G: BilinearMap> Gpsw<G> {
             return Err(FormatErr::InternalOperation(format!(
                 "invalid attributes: gamma value incorrect (value: {}, max expected size: {})",
                 gamma.len(),
-                pub_key.t_i.len() - 1
+                pub_key.t_i.len().saturating_sub(1)
             )));
         }
         let s = self.group.gen_random_scalar()?;
         let e_prime = self.group.gt_mul(msg, &self.group.gt_exp(&pub_key.y, &s));
         let e_i = gamma
             .iter()
-            .map(|i| self.group.g2_exp(&pub_key.t_i[*i as usize], &s))
-            .collect();
+            .map(|i| {
+                pub_key
+                    .t_i
+                    .get(*i as usize)
+                    .map(|t_i| self.group.g2_exp(t_i, &s))
+                    .ok_or_else(|| {
+                        FormatErr::InternalOperation(format!(
+                            "invalid attributes: value {i} is not covered by the public key"
+                        ))
+                    })
+            })
+            .collect::<Result<Vec<_>, FormatErr>>()?;
         let enc_msg = GpswCipherText::<G> {
             gamma: gamma.to_vec(),
             e_prime,
-- 
2.43.0


From 4e404c9f92febfa714a9e04b0b7fd4761b9b8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 03/12] fix: reject malformed vectors and span programs instead
 of panicking or over-allocating

---
 src/core/gpsw/mod.rs |  9 ++++++++-
 src/core/msp.rs      | 21 ++++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 5e1233d..f45b543 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -37,6 +37,12 @@ impl AsBytes for i32 {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.len() < 4 {
+            return Err(FormatErr::Deserialization(
+                "cannot deserialize i32 element since input bytes size is less than 4 bytes"
+                    .to_string(),
+            ));
+        }
         Ok(Self::from_be_bytes(bytes[0..4].try_into()?))
     }
 
@@ -74,7 +80,8 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len >= u32::MAX as usize {
+        // an empty vector is encoded as no byte at all
+        if len == 0 || len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
diff --git a/src/core/msp.rs b/src/core/msp.rs
index c4d9928..cd52d0a 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -53,7 +53,7 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         let nb_col: [u8; 4] = bytes[4..8].try_into()?;
         let nb_col = u32::from_be_bytes(nb_col) as usize;
 
-        if bytes.len() < 8 + 4 * nb_row {
+        if nb_row == 0 || nb_col == 0 || (bytes.len() - 8) / 4 < nb_row {
             return Err(FormatErr::InvalidSize(
                 "invalid MSP size read from bytes".to_string(),
             ));
@@ -72,13 +72,20 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         }
 
         let mut matrix = Vec::with_capacity(nb_row);
-        let mut row = Vec::with_capacity(nb_col);
-        row.push(I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?);
-        if bytes.len() < 8 + (4 * nb_row) + (nb_row * nb_col * row[0].len_bytes()) {
-            return Err(FormatErr::InvalidSize(
-                "invalid matrix size read from bytes".to_string(),
-            ));
+        let first = I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?;
+        match nb_row
+            .checked_mul(nb_col)
+            .and_then(|n| n.checked_mul(first.len_bytes()))
+        {
+            Some(size) if size <= bytes.len() - 8 - (4 * nb_row) => {}
+            _ => {
+                return Err(FormatErr::InvalidSize(
+                    "invalid matrix size read from bytes".to_string(),
+                ));
+            }
         }
+        let mut row = Vec::with_capacity(nb_col);
+        row.push(first);
         for c in 1..nb_col {
             let index = 8 + (4 * nb_row) + (c * row[0].len_bytes());
             row.push(I::try_from_bytes(&bytes[index..])?);
-- 
2.43.0


From d8ea36f4dcefb0097bb3aef958891636ceb4b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 04/12] fix: reject keys and ciphertexts whose parts have
 different sizes

---
 src/core/gpsw/scheme.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 967b06e..33edf1b 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -188,6 +188,11 @@ impl<G: BilinearMap> AsBytes for GpswDecryptionKey<G> {
         let raw_d_i = Vec::<G::G3>::try_from_bytes(bytes)?;
         let raw_d_i_len = raw_d_i.len_bytes();
         let msp = MonotoneSpanProgram::<G::Scalar>::try_from_bytes(&bytes[raw_d_i_len..])?;
+        if raw_d_i.len() != msp.rows() {
+            return Err(FormatErr::Deserialization(
+                "user key and Monotone Span Program sizes do not match".to_string(),
+            ));
+        }
         let d_i = raw_d_i.iter().map(|g3| G::g3_to_g1(g3)).collect();
 
         Ok(Self { raw_d_i, d_i, msp })
@@ -217,6 +222,11 @@ impl<G: BilinearMap> AsBytes for GpswCipherText<G> {
         let gamma_len = gamma.len_bytes();
         let e_i = Vec::<G::G2>::try_from_bytes(&bytes[gamma_len..])?;
         let e_i_len = e_i.len_bytes();
+        if e_i.len() != gamma.len() {
+            return Err(FormatErr::Deserialization(
+                "ciphertext does not hold one element per attribute".to_string(),
+            ));
+        }
         let e_prime = G::Gt::try_from_bytes(&bytes[gamma_len + e_i_len..])?;
 
         Ok(Self {
-- 
2.43.0


From ff73fd0465c8f2b0752c6b0d720411bd78d2c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 05/12] fix: report attributes without value in a policy
 instead of panicking

---
 src/core/msp.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index cd52d0a..71da34b 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -462,7 +462,10 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                 .iter()
                 .position(|r| r == &attr.name)
                 .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
-            let mut val = policy.attribute_to_int[attr]
+            let mut val = policy
+                .attribute_to_int
+                .get(attr)
+                .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?
                 .iter()
                 .map(|attr| Node::Leaf(*attr))
                 .reduce(std::ops::BitOr::bitor)
@@ -472,8 +475,12 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                     if at >= res {
                         break;
                     }
+                    let lower = Attribute::from((attr.axis.clone(), elem.clone()));
                     val = val
-                        | policy.attribute_to_int[&(attr.axis.clone(), elem.clone()).into()]
+                        | policy
+                            .attribute_to_int
+                            .get(&lower)
+                            .ok_or_else(|| FormatErr::AttributeNotFound(format!("{lower:?}")))?
                             .iter()
                             .map(|attr| Node::Leaf(*attr))
                             .reduce(std::ops::BitOr::bitor)
-- 
2.43.0


From 967889b49408aee17858c1356e66f6d47bb81765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 06/12] fix: reject truncated hybrid headers instead of
 panicking

---
 src/interfaces/hybrid_crypto/statics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 501c569..5ec526c 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -38,6 +38,9 @@ impl<S: SymmetricCrypto> EncryptedHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `encrypted_symmetric_key`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let encrypted_header_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
@@ -74,6 +77,9 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `meta_data`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
-- 
2.43.0


From be0d5cb6d5f91007abb7e93652fafd4e47d32e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 07/12] fix: refuse negative or too short buffer lengths in the
 C interface

---
 src/interfaces/ffi/generate_gpsw_keys.rs |  8 ++---
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 46 ++++++++++++------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 322db96..033ed96 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,7 +33,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
-    if *master_keys_len == 0 {
+    if *master_keys_len <= 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
 
@@ -111,14 +111,14 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
-    if *user_private_key_len == 0 {
+    if *user_private_key_len <= 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         master_private_key_ptr,
         "Master private key pointer should not be null"
     );
-    if master_private_key_len == 0 {
+    if master_private_key_len <= 0 {
         ffi_bail!("The master private key should not be empty");
     }
     ffi_not_null!(
@@ -213,7 +213,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
-    if *new_policy_len == 0 {
+    if *new_policy_len <= 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 05a8535..b42c9ba 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -73,7 +73,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
 ) -> i32 {
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     // Policy
@@ -142,14 +142,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -179,14 +179,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -260,19 +260,19 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Policy pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -307,14 +307,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -402,7 +402,7 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -465,14 +465,14 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
 
@@ -559,7 +559,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len == 0 {
+    if encrypted_len < 4 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
@@ -598,21 +598,21 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
     ffi_not_null!(
         user_decryption_key_ptr,
         "The user decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -714,7 +714,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
-    if *encrypted_len == 0 {
+    if *encrypted_len <= 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
 
@@ -723,7 +723,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -739,7 +739,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     // Data
     ffi_not_null!(data_ptr, "Data pointer should not be null");
-    if data_len == 0 {
+    if data_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(data_ptr.cast::<u8>(), data_len as usize).to_vec();
@@ -786,7 +786,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
-    if *clear_text_len == 0 {
+    if *clear_text_len <= 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
 
@@ -795,7 +795,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -811,7 +811,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     // Data
     ffi_not_null!(encrypted_bytes_ptr, "Data pointer should not be null");
-    if encrypted_bytes_len == 0 {
+    if encrypted_bytes_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(
-- 
2.43.0


From 10ec756aea18afa7127ced6ae81c50be758ec7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 08/12] fix: refuse null length and handle pointers in the C
 interface

---
 src/interfaces/ffi/generate_gpsw_keys.rs |  3 +++
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 033ed96..c8b75ca 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,6 +33,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(master_keys_len, "Buffer length pointer should not be null");
     if *master_keys_len <= 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
@@ -111,6 +112,7 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(user_private_key_len, "Buffer length pointer should not be null");
     if *user_private_key_len <= 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
@@ -213,6 +215,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(new_policy_len, "Buffer length pointer should not be null");
     if *new_policy_len <= 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index b42c9ba..3737027 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -71,6 +71,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
     public_key_ptr: *const c_char,
     public_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
     if public_key_len <= 0 {
@@ -142,6 +143,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Buffer length pointer should not be null");
     if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -149,6 +151,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(header_bytes_len, "Buffer length pointer should not be null");
     if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
@@ -260,6 +263,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Buffer length pointer should not be null");
     if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -267,6 +271,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(header_bytes_len, "Buffer length pointer should not be null");
     if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
@@ -398,6 +403,7 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
     user_decryption_key_ptr: *const c_char,
     user_decryption_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
@@ -465,6 +471,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Buffer length pointer should not be null");
     if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -513,7 +520,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -528,7 +535,8 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null() && !additional_data_len.is_null() && *additional_data_len > 0
+    {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -598,6 +606,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "Buffer length pointer should not be null");
     if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -648,7 +657,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -663,7 +672,8 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null() && !additional_data_len.is_null() && *additional_data_len > 0
+    {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -714,6 +724,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(encrypted_len, "Buffer length pointer should not be null");
     if *encrypted_len <= 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
@@ -786,6 +797,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(clear_text_len, "Buffer length pointer should not be null");
     if *clear_text_len <= 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
-- 
2.43.0


From 739f40ccad76c3d3c35496c258154ed88276db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 09/12] fix: refuse a header longer than the encrypted value in
 the Python interface

---
 src/interfaces/pyo3/hybrid_gpsw_aes.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index c66cf42..e1d3add 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -250,8 +250,12 @@ pub fn encrypt(
 #[pyfunction]
 pub fn decrypt(user_decryption_key_bytes: Vec<u8>, encrypted_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
     let header_size = get_encrypted_header_size(encrypted_bytes.clone())?;
-    let header = &encrypted_bytes[4..4 + header_size as usize];
-    let ciphertext = &encrypted_bytes[4 + header_size as usize..];
+    if encrypted_bytes.len() - 4 < header_size as usize {
+        return Err(PyTypeError::new_err(
+            "Encrypted value is shorter than its header",
+        ));
+    }
+    let (header, ciphertext) = encrypted_bytes[4..].split_at(header_size as usize);
 
     let cleartext_header = internal_decrypt_hybrid_header(&user_decryption_key_bytes, header)?;
 
-- 
2.43.0


From eff79443eabaa1c4a60f6e30922a3fd8e491732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 10/12] fix: get_last_error drops zero bytes of the message
 instead of losing it

---
 src/interfaces/ffi/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index d93f24f..365f234 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -181,7 +181,7 @@ pub unsafe extern "C" fn get_last_error(
 
     // Build a CString that will cleanup NULL bytes in the middle if needed
     let cs = ffi_unwrap!(
-        CString::new(err.map_or("".to_string(), |e| e.to_string())),
+        CString::new(err.map_or("".to_string(), |e| e.to_string().replace('\0', ""))),
         "failed to convert error to CString"
     );
     // the CString as bytes
-- 
2.43.0


From 8e72da93067250d5b4d06144cc92a6d593f0b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:34 +0000
Subject: [PATCH 11/12] fix: answer an unknown cache handle with an error in
 the WebAssembly interface

---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 8 +++++---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index c04d558..43691ab 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -156,9 +156,11 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
     let map = DECRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the decryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no decryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no decryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally decrypt symmetric key using given user decryption key
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index f4c5485..a1e902f 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -153,9 +153,11 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
     let map = ENCRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the encryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no encryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no encryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally encrypt symmetric key using given public key
-- 
2.43.0


From eff51442e58f91414764361932c33269159b44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 12/12] fix: refuse text formulas too deep for the recursive
 parser instead of overflowing the stack

---
 src/core/msp.rs | 85 +++++++++++++++++++++++++------------------------
 src/error.rs    |  2 ++
 2 files changed, 45 insertions(+), 42 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index 71da34b..74875a2 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -181,6 +181,11 @@ impl<I1: From<i32>> From<&MonotoneSpanProgram<i32>> for MonotoneSpanProgram<I1>
     }
 }
 
+// Deepest nesting of parentheses and largest number of operators in a text
+// formula, more could exhaust the stack
+const MAX_FORMULA_NESTING: usize = 200;
+const MAX_FORMULA_OPERATORS: usize = 10_000;
+
 #[derive(Clone)]
 pub enum Node {
     And(Box<Node>, Box<Node>),
@@ -305,19 +310,53 @@ impl Node {
                  formula: {s}"
             )));
         }
+        if s.matches(['&', '|']).count() > MAX_FORMULA_OPERATORS {
+            return Err(ParsingError::FormulaTooLarge);
+        }
         // Remove all spaces
         let new_s = str::replace(s, " ", "");
+        Self::parse_nested(&new_s, 0)
+    }
+
+    // Parse the formula inside `nesting` parentheses
+    fn parse_nested(s: &str, nesting: usize) -> Result<Self, ParsingError> {
+        if nesting > MAX_FORMULA_NESTING {
+            return Err(ParsingError::FormulaTooLarge);
+        }
+        let mut operands = Vec::new();
+        let mut new_s = s;
+        let last = loop {
+            let (operand, rest) = Self::parse_operand(new_s, nesting)?;
+            let Some(operator) = rest.chars().next() else {
+                break operand;
+            };
+            operands.push((operand, operator));
+
+            // Remove operator from input string
+            new_s = &rest[1..];
+        };
+        operands
+            .into_iter()
+            .rev()
+            .try_fold(last, |right, (left, operator)| match operator {
+                '&' => Ok(left & right),
+                '|' => Ok(left | right),
+                _ => Err(ParsingError::UnsupportedOperator(operator.to_string())),
+            })
+    }
 
+    // Parse the first operand, return it and what follows
+    fn parse_operand(new_s: &str, nesting: usize) -> Result<(Self, &str), ParsingError> {
         // Try getting first integer and then following operation
         let int_reg = Regex::new(r"^\d+")?;
-        if int_reg.is_match(&new_s) {
+        if int_reg.is_match(new_s) {
             if int_reg.captures_len() != 1 {
                 return Err(ParsingError::UnexpectedCharacter(
                     "it must starts with an integer".to_string(),
                 ));
             }
             let integer_str = int_reg
-                .find_at(&new_s, 0)
+                .find_at(new_s, 0)
                 .ok_or_else(|| {
                     ParsingError::UnexpectedCharacter(format!(
                         "integer detected by regex but not found in: {new_s}"
@@ -328,24 +367,7 @@ impl Node {
 
             // Remove integer from current formula
             let new_s = &new_s[integer_str.len()..];
-            if new_s.is_empty() {
-                return Ok(Self::Leaf(integer));
-            }
-            let a = Box::new(Self::Leaf(integer));
-            let operator = new_s.chars().next().ok_or_else(|| {
-                ParsingError::UnexpectedEnd(format!(
-                    "no further character while detecting operator in: {}",
-                    &new_s
-                ))
-            })?;
-
-            // Remove operator from input string
-            let new_s = &new_s[1..];
-            match operator {
-                '&' => Ok(Self::And(a, Box::new(Self::parse(new_s)?))),
-                '|' => Ok(Self::Or(a, Box::new(Self::parse(new_s)?))),
-                _ => Err(ParsingError::UnsupportedOperator(operator.to_string())),
-            }
+            Ok((Self::Leaf(integer), new_s))
         } else {
             // Remove parenthesis on current part of formula and continue
             let first_char = new_s.chars().next().ok_or_else(|| {
@@ -389,28 +411,7 @@ impl Node {
 
             // Skip closing parenthesis
             let new_s = &new_s[1..];
-            if new_s.is_empty() {
-                return Self::parse(between_parenthesis);
-            }
-            let operator = new_s.chars().next().ok_or_else(|| {
-                ParsingError::UnexpectedEnd(format!(
-                    "no further character while detecting operator in: {}",
-                    &new_s
-                ))
-            })?;
-            let new_s = &new_s[1..];
-
-            match operator {
-                '&' => Ok(Self::And(
-                    Box::new(Self::parse(between_parenthesis)?),
-                    Box::new(Self::parse(new_s)?),
-                )),
-                '|' => Ok(Self::Or(
-                    Box::new(Self::parse(between_parenthesis)?),
-                    Box::new(Self::parse(new_s)?),
-                )),
-                _ => Err(ParsingError::UnsupportedOperator(operator.to_string())),
-            }
+            Ok((Self::parse_nested(between_parenthesis, nesting + 1)?, new_s))
         }
     }
 } // impl Node
diff --git a/src/error.rs b/src/error.rs
index 04ddf32..22a933b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -145,4 +145,6 @@ pub enum ParsingError {
     UnsupportedOperand(String),
     #[error("unsupported operator {0}")]
     UnsupportedOperator(String),
+    #[error("the formula is too large")]
+    FormulaTooLarge,
 }
-- 
2.43.0

