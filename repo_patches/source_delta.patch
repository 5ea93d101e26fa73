From 863898e0b350516a41258f11d9aaac79bb6a72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 1/9] fix: reject global signatures that are not exactly 64
 bytes long

A global signature line decoding to fewer than 64 bytes was accepted by
SignatureBox::from_string() and made verify() panic on an out of range
slice; one decoding to more than 64 bytes was accepted with the excess
silently ignored.
---
 src/signature_box.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 970c11a..2770c0c 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -119,6 +119,12 @@ impl SignatureBox {
         sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if global_sig.len() != SIGNATURE_BYTES {
+            return Err(PError::new(
+                ErrorKind::Verify,
+                "Invalid global signature length",
+            ));
+        }
         Ok(SignatureBox {
             untrusted_comment,
             signature,
-- 
2.43.0


From 7c760b35df33f5fc5d426c2fb4ad066aa80379b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 2/9] fix: reject signature lines with trailing bytes

Bytes following the 74-byte signature structure on the second line of a
signature box were silently ignored, so that a modified signature file
was still accepted.
---
 src/signature_box.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 2770c0c..3af0daf 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -95,6 +95,9 @@ impl SignatureBox {
         let untrusted_comment = untrusted_comment[COMMENT_PREFIX.len()..].to_string();
         let sig_bytes = Base64::decode_to_vec(signature_str.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if sig_bytes.len() != Signature::BYTES {
+            return Err(PError::new(ErrorKind::Io, "Invalid signature length"));
+        }
         let signature = Signature::from_bytes(&sig_bytes)?;
         if !trusted_comment_str.starts_with(TRUSTED_COMMENT_PREFIX) {
             return Err(PError::new(
-- 
2.43.0


From 6f91521e7c03cbcade9356f5272125199f02bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 3/9] fix: do not trim trusted comments when loading a
 signature box

sign() signs the trusted comment verbatim, but from_string() stripped
leading and trailing white space from it, so that a signature whose
trusted comment starts or ends with white space stopped verifying once
it had been stored and reloaded.
---
 src/signature_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 3af0daf..e457309 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -119,7 +119,7 @@ impl SignatureBox {
             .drain(..TRUSTED_COMMENT_PREFIX_LEN)
             .count();
         let mut sig_and_trusted_comment = signature.sig.to_vec();
-        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
+        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
         if global_sig.len() != SIGNATURE_BYTES {
-- 
2.43.0


From f32e5bf28cab576ed01a4ab69923340314d8e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 4/9] fix: encrypt the secret key even if the password is empty

generate_encrypted_keypair() skipped the encryption when the password was
empty, yet labelled the key as encrypted: the secret key was stored in the
clear and could not be loaded any more, neither with the empty password nor
as an unencrypted key.
---
 src/keypair.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keypair.rs b/src/keypair.rs
index b1fa922..e4897b4 100644
--- a/src/keypair.rs
+++ b/src/keypair.rs
@@ -100,9 +100,8 @@ impl KeyPair {
                 password
             }
         };
-        if !password.is_empty() {
-            sk = sk.encrypt(password)?;
-        } else if interactive {
+        sk = sk.encrypt(password)?;
+        if interactive {
             writeln!(io::stdout(), "done").map_err(|e| PError::new(ErrorKind::Io, e))?;
         }
         Ok(KeyPair { pk, sk })
-- 
2.43.0


From 029b172488affc2d3598caa1a556cc799bb2dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 5/9] fix: refuse excessive scrypt opslimit values

Only memlimit was bounded when opening a secret key. opslimit determines
the parallelization factor, hence also the size of a buffer: a secret key
file with a large opslimit made the process run out of memory and abort, or
run for an unbounded time, instead of returning an error. The limit is
libsodium's OPSLIMIT_SENSITIVE, as MEMLIMIT_MAX is its MEMLIMIT_SENSITIVE.
---
 src/constants.rs  | 1 +
 src/secret_key.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index 1d7cede..f0e5757 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -26,6 +26,7 @@ pub(crate) const KEYNUM_BYTES: usize = 8;
 pub(crate) const MEMLIMIT: usize = 33_554_432;
 pub(crate) const OPSLIMIT: u64 = 1_048_576;
 pub(crate) const MEMLIMIT_MAX: usize = 1_073_741_824;
+pub(crate) const OPSLIMIT_MAX: u64 = 33_554_432;
 pub(crate) const N_LOG2_MAX: u8 = 20;
 pub(crate) const PASSWORD_MAXBYTES: usize = 1024;
 pub(crate) const PK_B64_ENCODED_LEN: usize = 56;
diff --git a/src/secret_key.rs b/src/secret_key.rs
index 721f6be..50d937e 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -131,7 +131,7 @@ impl SecretKey {
         let mut stream = [0u8; CHK_BYTES + SECRETKEY_BYTES + KEYNUM_BYTES];
         let opslimit = load_u64_le(&self.kdf_opslimit_le);
         let memlimit = load_u64_le(&self.kdf_memlimit_le) as usize;
-        if memlimit > MEMLIMIT_MAX {
+        if memlimit > MEMLIMIT_MAX || opslimit > OPSLIMIT_MAX {
             return Err(PError::new(ErrorKind::KDF, "scrypt parameters too high"));
         }
         let params = raw_scrypt_params(memlimit, opslimit, N_LOG2_MAX)?;
-- 
2.43.0


From 9800d486b1becd6aebce861861bba90f6369d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 6/9] fix: only output the data that was verified

verify() checks the data from the current position of the reader, but
rewound the reader to the start of the stream before copying it to the
standard output, thereby outputting unverified data when the reader was
not positioned at the start.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1645d72..7407f6c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,7 @@ mod signature_box;
 #[cfg(test)]
 mod tests;
 
-use std::io::{self, Read, Seek, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use getrandom::getrandom;
 
@@ -142,6 +142,11 @@ pub fn verify<R>(
 where
     R: Read + Seek,
 {
+    let start = if output {
+        data_reader.stream_position()?
+    } else {
+        0
+    };
     let data = if signature_box.is_prehashed() {
         prehash(&mut data_reader)?
     } else {
@@ -199,7 +204,7 @@ where
         }
     }
     if output {
-        data_reader.rewind()?;
+        data_reader.seek(SeekFrom::Start(start))?;
         let mut buf = vec![0; 65536];
         loop {
             let len = data_reader.read(&mut buf)?;
-- 
2.43.0


From b6a59517f32f233c1caecc0cd4c580bff4f7dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:23 +0000
Subject: [PATCH 7/9] fix: refuse to sign with a secret key that is still
 encrypted

generate_encrypted_keypair() returns the secret key in its encrypted form,
and SecretKey::from_bytes() loads whatever it is given. Signing with such a
key succeeded, but returned a signature made with garbage, carrying a garbage
key identifier, that can never be verified.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7407f6c..7d80d6c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -76,6 +76,12 @@ pub fn sign<R>(
 where
     R: Read,
 {
+    if sk.read_checksum()? != sk.keynum_sk.chk {
+        return Err(PError::new(
+            ErrorKind::Sign,
+            "The secret key is encrypted or corrupted",
+        ));
+    }
     let data = prehash(&mut data_reader)?;
     let trusted_comment = match trusted_comment {
         Some(trusted_comment) => trusted_comment.to_string(),
-- 
2.43.0


From 1b608cd3b1f208401ff52c96d2d798291ddb211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 8/9] fix: reject non-canonical encodings of the neutral
 element as public keys

---
 src/crypto/ed25519.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index be32377..8bc9cb0 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -33,7 +33,7 @@ pub fn verify(message: &[u8], public_key: &[u8], signature: &[u8]) -> bool {
             return false;
         }
     };
-    if public_key.iter().fold(0, |acc, x| acc | x) == 0 {
+    if public_key.iter().fold(0, |acc, x| acc | x) == 0 || is_identity(&a.to_bytes()) {
         return false;
     }
 
-- 
2.43.0


From 220a8a607099320673226744f767f257767aa20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 9/9] fix: reject signatures with a non-canonical scalar

---
 src/crypto/ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index 8bc9cb0..a42d47a 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -2,8 +2,8 @@ use super::curve25519::{ge_scalarmult_base, is_identity, sc_muladd, sc_reduce, G
 use super::sha512;
 
 static L: [u8; 32] = [
-    0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-    0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed,
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
 ];
 
 fn check_s_lt_l(s: &[u8]) -> bool {
-- 
2.43.0

