From c8c6bbd2e4553ef4c6faa1f6bbd6fd4f65890bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 1/5] fix: compare the private key bytes of both extended
 private keys in ct_eq

---
 src/bip32/extended_key/extended_private_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 14e9dc5..80554d3 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -181,7 +181,7 @@ where
 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let mut key_a = self.to_bytes();
-        let mut key_b = self.to_bytes();
+        let mut key_b = other.to_bytes();
 
         let result = key_a.ct_eq(&key_b)
             & self.attrs.depth.ct_eq(&other.attrs.depth)
-- 
2.43.0


From 104eeacff5e438ab29c69a9ac7ebf61b4da71b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 2/5] fix: report an out-of-range child tweak as an error
 instead of panicking

---
 src/bip32/private_key.rs | 3 ++-
 src/bip32/public_key.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip32/private_key.rs b/src/bip32/private_key.rs
index e012792..be9ff75 100644
--- a/src/bip32/private_key.rs
+++ b/src/bip32/private_key.rs
@@ -44,8 +44,9 @@ impl PrivateKey for libsecp256k1::SecretKey {
     }
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
+        let tweak = libsecp256k1::SecretKey::parse(&other).map_err(|_| Error::Crypto)?;
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()) {
+        match cpk.tweak_add_assign(&tweak) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
diff --git a/src/bip32/public_key.rs b/src/bip32/public_key.rs
index 80c6163..6470353 100644
--- a/src/bip32/public_key.rs
+++ b/src/bip32/public_key.rs
@@ -47,8 +47,9 @@ impl PublicKey for libsecp256k1::PublicKey {
     }
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
+        let tweak = libsecp256k1::SecretKey::parse(&other).map_err(|_| Error::Crypto)?;
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()){
+        match cpk.tweak_add_assign(&tweak){
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
-- 
2.43.0


From 9c9fcfbaf5faad039b758a5e95d18e58127bc9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 3/5] fix: look up word prefixes without assuming a sorted word
 list

---
 src/bip39/language.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bip39/language.rs b/src/bip39/language.rs
index 6e49c99..f0ec64c 100644
--- a/src/bip39/language.rs
+++ b/src/bip39/language.rs
@@ -27,8 +27,9 @@ impl WordList {
 
     pub fn get_words_by_prefix(&self, prefix: &str) -> &[&'static str] {
         let start = self.inner
-            .binary_search(&prefix)
-            .unwrap_or_else(|idx| idx);
+            .iter()
+            .position(|word| word.starts_with(prefix))
+            .unwrap_or(self.inner.len());
         let count = self.inner[start..].iter()
             .take_while(|word| word.starts_with(prefix))
             .count();
-- 
2.43.0


From 48547ea1202c0195694bc6d2dcb963e12f566999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 4/5] fix: reject serialized root keys with a parent
 fingerprint or a child number

---
 src/bip32/extended_key/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bip32/extended_key/mod.rs b/src/bip32/extended_key/mod.rs
index 999d373..20e4ff5 100644
--- a/src/bip32/extended_key/mod.rs
+++ b/src/bip32/extended_key/mod.rs
@@ -89,6 +89,11 @@ impl FromStr for ExtendedKey {
         let key_bytes = bytes[45..78].try_into()?;
         bytes.zeroize();
 
+        // BIP32: a key at depth zero is a root key, so it has no parent and no index
+        if depth == 0 && (parent_fingerprint != [0u8; 4] || child_number.0 != 0) {
+            return Err(Error::Decode);
+        }
+
         let attrs = ExtendedKeyAttrs {
             depth,
             parent_fingerprint,
-- 
2.43.0


From 46af75f1331fc6a5c0ba9623125f4c485d3f68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 5/5] fix: draw mnemonic entropy from the operating system

---
 src/bip39/crypto.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bip39/crypto.rs b/src/bip39/crypto.rs
index a32fe79..76f0b8f 100644
--- a/src/bip39/crypto.rs
+++ b/src/bip39/crypto.rs
@@ -6,7 +6,7 @@
 //!
 
 extern crate rand;
-use self::rand::{thread_rng, RngCore};
+use self::rand::{rngs::OsRng, RngCore};
 use hmac::Hmac;
 use sha2::Digest;
 
@@ -22,10 +22,11 @@ pub(crate) fn sha256_first_byte(input: &[u8]) -> u8 {
 /// Random byte generator, used to create new mnemonics
 ///
 pub(crate) fn gen_random_bytes(byte_length: usize) -> Vec<u8> {
-    let mut rng = thread_rng();
     let mut bytes = vec![0u8; byte_length];
 
-    rng.fill_bytes(&mut bytes);
+    // straight from the operating system: a buffering generator would hand the same
+    // bytes to both sides of a fork
+    OsRng.fill_bytes(&mut bytes);
 
     bytes
 }
-- 
2.43.0

