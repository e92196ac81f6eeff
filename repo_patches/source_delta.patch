From e3be4c1ea8b3b8d3658c9e810db3efc04e699405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 01/13] fix: reject secp256k1 signatures that do not match the
 message

---
 keypair/src/secp256k1.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/keypair/src/secp256k1.rs b/keypair/src/secp256k1.rs
index 64c4a85..e54e0d4 100644
--- a/keypair/src/secp256k1.rs
+++ b/keypair/src/secp256k1.rs
@@ -171,8 +171,13 @@ impl PublicKey {
     pub fn verify_hashed(&self, msg: &[u8], sig: &[u8]) -> Result<(), VerificationError> {
         Message::parse_slice(msg)
             .and_then(|m| {
-                libsecp256k1::Signature::parse_der(sig)
-                    .map(|s| libsecp256k1::verify(&m, &s, &self.0))
+                libsecp256k1::Signature::parse_der(sig).and_then(|s| {
+                    if libsecp256k1::verify(&m, &s, &self.0) {
+                        Ok(())
+                    } else {
+                        Err(libsecp256k1::Error::InvalidSignature)
+                    }
+                })
             })
             .map_err(|e| {
                 VerificationError::Secp256k1(
@@ -181,7 +186,6 @@ impl PublicKey {
                     bs58::encode(self.0.serialize_compressed()).into_string(),
                 )
             })
-            .map(|_| ())
     }
 
     /// Encode the public key in compressed form, i.e. with one coordinate
-- 
2.43.0


From 4edd331fcb6e66e55b5a1e650567d6b7f0f3ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 02/13] fix: respect revocations of the direct issuer of the
 requested key

---
 trust-graph/src/trust_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 3da6716..2727455 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -279,7 +279,13 @@ where
 
         // put all auth in the queue as the first possible paths through the graph
         for auth in node_auths {
-            chains_queue.push_back(Chain::new(NonEmpty::new(auth), node_revocations.clone()));
+            // the issuer of the first auth is a member of the chain, so its revocations count too
+            let mut revocations = node_revocations.clone();
+            revocations.extend(
+                self.storage
+                    .get_revocations(&auth.issued_by.clone().into())?,
+            );
+            chains_queue.push_back(Chain::new(NonEmpty::new(auth), revocations));
         }
 
         // List of all chains that converge (terminate) to known roots
-- 
2.43.0


From 4a9277ddd39bd419db746bbe35175b177c98cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 03/13] fix: return an error when decoding an empty key or
 signature

---
 keypair/src/public_key.rs | 2 +-
 keypair/src/signature.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keypair/src/public_key.rs b/keypair/src/public_key.rs
index 483b06b..adff7d9 100644
--- a/keypair/src/public_key.rs
+++ b/keypair/src/public_key.rs
@@ -68,7 +68,7 @@ impl PublicKey {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<PublicKey, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        match KeyFormat::try_from(*bytes.first().ok_or(DecodingError::InvalidTypeByte)?)? {
             KeyFormat::Ed25519 => Ok(PublicKey::Ed25519(ed25519::PublicKey::decode(&bytes[1..])?)),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(PublicKey::Rsa(rsa::PublicKey::from_pkcs1(
diff --git a/keypair/src/signature.rs b/keypair/src/signature.rs
index fc89472..9949bf1 100644
--- a/keypair/src/signature.rs
+++ b/keypair/src/signature.rs
@@ -64,7 +64,7 @@ impl Signature {
 
     /// decode with first byte set as keypair type
     pub fn decode(bytes: Vec<u8>) -> Result<Self, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        match KeyFormat::try_from(*bytes.first().ok_or(DecodingError::InvalidTypeByte)?)? {
             KeyFormat::Ed25519 => Ok(Signature::Ed25519(ed25519::Signature(bytes[1..].to_vec()))),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(Signature::Rsa(rsa::Signature(bytes[1..].to_vec()))),
-- 
2.43.0


From 5f061a968ca6ed66292913ad41d5a327e5c326bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 04/13] fix: return an error when decoding a trust with
 trailing bytes

---
 trust-graph/src/trust.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trust-graph/src/trust.rs b/trust-graph/src/trust.rs
index 7618da5..09e0ad3 100644
--- a/trust-graph/src/trust.rs
+++ b/trust-graph/src/trust.rs
@@ -206,6 +206,9 @@ impl Trust {
         offset += EXPIRATION_LEN;
 
         Self::check_arr_len(arr, "issued", offset + ISSUED_LEN)?;
+        if arr.len() != offset + ISSUED_LEN {
+            return Err(DecodeErrorInvalidSize("issued".to_string()));
+        }
         let issued_bytes = &arr[offset..];
         let issued_date = u64::from_le_bytes(issued_bytes.try_into().unwrap());
         let issued_date = Duration::from_secs(issued_date);
-- 
2.43.0


From 82abeb3f6774944d1c37953acdcc379506b07435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 05/13] fix: return an error when parsing a certificate without
 its header lines

---
 trust-graph/src/certificate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index bf78daf..5f5f7e3 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -310,6 +310,10 @@ impl FromStr for Certificate {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let str_lines: Vec<&str> = s.lines().collect();
 
+        if str_lines.len() < 2 {
+            return Err(IncorrectCertificateFormat(s.to_string()));
+        }
+
         // TODO for future purposes
         let _format = str_lines[0];
         let _version = str_lines[1];
-- 
2.43.0


From c90f4f9f6cf51138ea77834c13beb311a6d761d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 06/13] fix: return an error when extending an empty
 certificate

---
 trust-graph/src/certificate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 5f5f7e3..6c48d78 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -101,11 +101,8 @@ impl Certificate {
             });
         }
 
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
         // check if `issued_by` is allowed to issue a certificate (i.e., there’s a trust for it in a chain)
         let mut previous_trust_num: i32 = -1;
         for pk_id in 0..extend_cert.chain.len() {
@@ -166,11 +163,8 @@ impl Certificate {
         }
 
         // first, verify given certificate
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
 
         let issued_by_pk = issued_by.public();
 
-- 
2.43.0


From 7b3ef678dc7c94af5939b12192178e5c5cebc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 07/13] fix: verify the supplied trust when extending a
 certificate with it

---
 trust-graph/src/certificate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 6c48d78..9049584 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -115,6 +115,10 @@ impl Certificate {
             return Err(KeyInCertificateError);
         };
 
+        // the new trust must be valid and signed by `issued_by`
+        Trust::verify(&trust, &issued_by, cur_time)
+            .map_err(|e| VerificationError((previous_trust_num + 1) as usize, e))?;
+
         // splitting old chain to add new trust after given public key
         let mut new_chain = extend_cert
             .chain
-- 
2.43.0


From 405382caee1aa4efc615945967a64a8cb54b3afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 08/13] fix: check the tetraplet of the timestamp argument in
 get_weight_from

---
 service/src/service_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index ecd45cb..58047ae 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -139,7 +139,7 @@ fn get_weight(peer_id: String, timestamp_sec: u64) -> WeightResult {
 #[marine]
 fn get_weight_from(peer_id: String, issuer: String, timestamp_sec: u64) -> WeightResult {
     with_tg(|tg| {
-        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 2)?;
         let issued_for_pk = extract_public_key(peer_id.clone())?;
         let issuer_pk = extract_public_key(issuer)?;
         let weight =
-- 
2.43.0


From c51295c7d8cf09e9df8f07d77672d6771c1ce7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 09/13] fix: accept certificates only with a host timestamp and
 no future trusts

---
 service/src/service_api.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index 58047ae..251409e 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -34,15 +34,34 @@ fn set_root(peer_id: String, max_chain_len: u32) -> SetRootResult {
     }
 }
 
+fn add_cert(
+    tg: &mut TrustGraph<SQLiteStorage>,
+    certificate: trust_graph::Certificate,
+    timestamp_sec: u64,
+) -> Result<(), ServiceError> {
+    let timestamp_sec = Duration::from_secs(timestamp_sec);
+    if certificate
+        .chain
+        .iter()
+        .any(|trust| trust.issued_at > timestamp_sec)
+    {
+        return Err(ServiceError::InvalidTimestamp("trust".to_string()));
+    }
+
+    Ok(tg.add(certificate, timestamp_sec)?)
+}
+
 #[marine]
 /// add a certificate in string representation to trust graph if it is valid
 /// see `trust_graph::Certificate` class for string encoding/decoding
 fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
-        let certificate = trust_graph::Certificate::from_str(&certificate)?;
-        let timestamp_sec = Duration::from_secs(timestamp_sec);
-        tg.add(certificate, timestamp_sec)?;
-        Ok(())
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        add_cert(
+            tg,
+            trust_graph::Certificate::from_str(&certificate)?,
+            timestamp_sec,
+        )
     })
     .into()
 }
@@ -52,12 +71,12 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
 /// see `dto::Certificate` class for structure
 fn insert_cert(certificate: Certificate, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
-        let timestamp_sec = Duration::from_secs(timestamp_sec);
-        tg.add(
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        add_cert(
+            tg,
             trust_graph::Certificate::try_from(certificate)?,
             timestamp_sec,
-        )?;
-        Ok(())
+        )
     })
     .into()
 }
-- 
2.43.0


From bb93b7aebe18b53a054d79d15b5bd5e9616172f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 10/13] fix: keep one weight factor per root key

---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 008623f..bdfdd5e 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -44,7 +44,7 @@ pub fn create_tables() {
     connection
         .execute(
             "CREATE TABLE IF NOT EXISTS roots(
-        public_key TEXT,
+        public_key TEXT PRIMARY KEY,
         weight_factor INTEGER
         );",
         )
-- 
2.43.0


From 1791a342d3cb39a459426d68fb548831a5ceb511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 11/13] fix: do not purge trusts that expire after i64::MAX
 seconds

---
 service/src/storage_impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index bdfdd5e..c4d82b2 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -341,7 +341,11 @@ impl Storage for SQLiteStorage {
     fn remove_expired(&mut self, cur_time: Duration) -> Result<(), Self::Error> {
         let mut cursor = self
             .connection
-            .prepare("DELETE FROM trust_relations WHERE expires_at <= ? AND relation_type = ?")?
+            .prepare(
+                // expiration dates over `i64::MAX` are stored as negative integers
+                "DELETE FROM trust_relations \
+             WHERE expires_at >= 0 AND expires_at <= ? AND relation_type = ?",
+            )?
             .cursor();
 
         cursor.bind(&[
-- 
2.43.0


From 090e490d587b141a787c34ea9e1bc50836da1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 12/13] fix: converting a storage error to a string recursed
 without end

---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index c4d82b2..9250db1 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -183,7 +183,7 @@ fn parse_relation(row: &[Value]) -> Result<TrustRelation, SQLiteStorageError> {
 
 impl From<SQLiteStorageError> for String {
     fn from(err: SQLiteStorageError) -> Self {
-        err.into()
+        err.to_string()
     }
 }
 
-- 
2.43.0


From c47fd1fd8dfb6bcbe2f8b9e602001b3f9350b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:40 +0000
Subject: [PATCH 13/13] fix: a hashable key written as JSON could not be read
 back

---
 trust-graph/src/public_key_hashable.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/trust-graph/src/public_key_hashable.rs b/trust-graph/src/public_key_hashable.rs
index 4ac8c54..461fd55 100644
--- a/trust-graph/src/public_key_hashable.rs
+++ b/trust-graph/src/public_key_hashable.rs
@@ -103,7 +103,7 @@ impl<'de> serde::Deserialize<'de> for PublicKeyHashable {
     where
         D: serde::Deserializer<'de>,
     {
-        use serde::de::{Error, Visitor};
+        use serde::de::{Error, SeqAccess, Visitor};
 
         struct PKVisitor;
 
@@ -135,8 +135,25 @@ impl<'de> serde::Deserialize<'de> for PublicKeyHashable {
                     .map_err(|err| Error::custom(format!("Invalid bytes {b:?}: {err}")))?;
                 Ok(PublicKeyHashable::from(pk))
             }
+
+            // text formats write byte arrays as sequences of numbers
+            fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+            where
+                A: SeqAccess<'de>,
+            {
+                let mut bytes: Vec<u8> = Vec::new();
+                while let Some(byte) = seq.next_element()? {
+                    bytes.push(byte);
+                }
+                self.visit_bytes(bytes.as_slice())
+            }
         }
 
-        deserializer.deserialize_str(PKVisitor)
+        if deserializer.is_human_readable() {
+            // either a base58 string or a byte array
+            deserializer.deserialize_any(PKVisitor)
+        } else {
+            deserializer.deserialize_bytes(PKVisitor)
+        }
     }
 }
-- 
2.43.0

