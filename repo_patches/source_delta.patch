From 375622b820a8d8ca4db677d86c05cf3f1fd5e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 1/6] fix: tell P-256 from P-384 when naming the verified
 signature algorithm

---
 crates/tls-core/src/verify.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index c52deab..83810f5 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -485,13 +485,23 @@ pub enum SignatureAlgorithm {
 impl SignatureAlgorithm {
     pub fn from_alg(alg: &dyn pki_types::SignatureVerificationAlgorithm) -> Self {
         let id = alg.signature_alg_id();
-        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() {
+        // The signature algorithm id of ECDSA does not name the curve, the public key id does.
+        let key_id = alg.public_key_alg_id();
+        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id()
+            && key_id == webpki::ring::ECDSA_P256_SHA256.public_key_alg_id()
+        {
             SignatureAlgorithm::ECDSA_NISTP256_SHA256
-        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() {
+        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id()
+            && key_id == webpki::ring::ECDSA_P256_SHA384.public_key_alg_id()
+        {
             SignatureAlgorithm::ECDSA_NISTP256_SHA384
-        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id() {
+        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id()
+            && key_id == webpki::ring::ECDSA_P384_SHA256.public_key_alg_id()
+        {
             SignatureAlgorithm::ECDSA_NISTP384_SHA256
-        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id() {
+        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id()
+            && key_id == webpki::ring::ECDSA_P384_SHA384.public_key_alg_id()
+        {
             SignatureAlgorithm::ECDSA_NISTP384_SHA384
         } else if id == webpki::ring::ED25519.signature_alg_id() {
             SignatureAlgorithm::ED25519
-- 
2.43.0


From 5fa053875462fef717a7ed54ec382c2984e63ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 2/6] fix: session hash stops at ServerHelloDone

The session hash (RFC 7627) covers the handshake messages up to and including
ClientKeyExchange, as the comment says. A server NewSessionTicket arrives after
ClientKeyExchange but before the server's ChangeCipherSpec, and was hashed too.
---
 crates/core/src/transcript/tls/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 83ba75a..5b2c0c0 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -298,7 +298,7 @@ fn compute_handshake_hashes(
     // → client flight up to and including ClientKeyExchange.
     let mut hasher = Sha256::new();
     hasher.update(&sent_hs_bytes[..sent_ch_end]);
-    hasher.update(&recv_hs_bytes);
+    hasher.update(&recv_hs_bytes[..recv_shd_end]);
     hasher.update(&sent_hs_bytes[sent_ch_end..ckx.end]);
     let session_hash: [u8; 32] = hasher.finalize().into();
 
-- 
2.43.0


From 5e18c0fc156ac44cccfe10f9adbe56904fa8b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 3/6] fix: record layer limits cannot be passed by an
 overflowing length

The follower gets the length of an outgoing record from the leader without any
bound. `sent + len` overflowed for a large one: a panic with overflow checks,
otherwise a record over the limit was accepted and the count of sent bytes
wrapped around.
---
 crates/mpc-tls/src/record_layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mpc-tls/src/record_layer.rs b/crates/mpc-tls/src/record_layer.rs
index c9010f3..0cbeb74 100644
--- a/crates/mpc-tls/src/record_layer.rs
+++ b/crates/mpc-tls/src/record_layer.rs
@@ -292,7 +292,7 @@ impl RecordLayer {
     ) -> Result<(), MpcTlsError> {
         if self.encrypt_buffer.len() >= MAX_BUFFER_SIZE {
             return Err(MpcTlsError::peer("encrypt buffer is full"));
-        } else if self.sent + len > self.max_sent {
+        } else if len > self.max_sent.saturating_sub(self.sent) {
             return Err(MpcTlsError::record_layer(format!(
                 "attempted to send more data than was configured, increase `max_sent` in the config: current={}, additional={}, max={}",
                 self.sent, len, self.max_sent
@@ -338,7 +338,7 @@ impl RecordLayer {
     ) -> Result<(), MpcTlsError> {
         if self.decrypt_buffer.len() >= MAX_BUFFER_SIZE {
             return Err(MpcTlsError::peer("decrypt buffer is full"));
-        } else if self.recv + ciphertext.len() > self.max_recv {
+        } else if ciphertext.len() > self.max_recv.saturating_sub(self.recv) {
             return Err(MpcTlsError::record_layer(format!(
                 "attempted to receive more data than was configured, increase `max_recv` in the config: current={}, additional={}, max={}",
                 self.recv,
-- 
2.43.0


From 258a3efc0c02386c9f19a94747db216186761356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 4/6] fix: follower rejects a server hello that precedes the
 client random

---
 crates/mpc-tls/src/follower.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/mpc-tls/src/follower.rs b/crates/mpc-tls/src/follower.rs
index 38a9084..2aaad58 100644
--- a/crates/mpc-tls/src/follower.rs
+++ b/crates/mpc-tls/src/follower.rs
@@ -232,6 +232,12 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("server hello already set"));
                     }
 
+                    if client_random.is_none() {
+                        return Err(MpcTlsError::hs(
+                            "client random must be set before server hello",
+                        ));
+                    }
+
                     let this_time = web_time::UNIX_EPOCH
                         .elapsed()
                         .expect("system time is available")
-- 
2.43.0


From aee395e0bda5609c552e7afcfc4a6780d6bc166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 5/6] fix: TLS transcript builder reports missing finished
 records instead of panicking

---
 crates/core/src/transcript/tls/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 5b2c0c0..e88ba3c 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -140,7 +140,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let sent = if let Some(records_sent) = self.records_sent {
             let client_finished = records_sent
                 .first()
-                .expect("client finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("client finished record"))?;
             validate_finished_record(client_finished)?;
             records_sent
         } else if let Some(sent_raw) = sent_raw {
@@ -153,7 +153,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let recv = if let Some(records_recv) = self.records_recv {
             let server_finished = records_recv
                 .first()
-                .expect("server finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("server finished record"))?;
             validate_finished_record(server_finished)?;
             records_recv
         } else if let Some(recv_raw) = recv_raw {
-- 
2.43.0


From 862e2f51a24df6df35065fc4d1551f21cacf2108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:33 +0000
Subject: [PATCH 6/6] fix: refuse commitment ranges beyond the transcript

---
 crates/tlsn/src/verifier/verify.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/tlsn/src/verifier/verify.rs b/crates/tlsn/src/verifier/verify.rs
index f383e79..cb44d76 100644
--- a/crates/tlsn/src/verifier/verify.rs
+++ b/crates/tlsn/src/verifier/verify.rs
@@ -98,6 +98,14 @@ pub(crate) async fn verify<T: Vm<Binary> + Send + Sync>(
             });
     }
 
+    if commit_sent.end().unwrap_or(0) > ciphertext_sent.len()
+        || commit_recv.end().unwrap_or(0) > ciphertext_recv.len()
+    {
+        return Err(Error::internal().with_msg(
+            "verification failed: commitment range is out of bounds of the transcript",
+        ));
+    }
+
     let (sent_refs, sent_proof) = verify_plaintext(
         vm,
         keys.client_write_key,
-- 
2.43.0

