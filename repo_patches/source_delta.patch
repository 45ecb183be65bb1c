From eb1303d6b03d72c76b05c8eb1e7ba7b1cd8e984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:05 +0000
Subject: [PATCH 1/6] fix: compare the other key in ExtendedPrivateKey::ct_eq

ct_eq compared self with self, so extended private keys with different
private keys but equal attributes were reported equal.
---
 src/bip32/extended_key/extended_private_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 14e9dc5..80554d3 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -181,7 +181,7 @@ where
 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let mut key_a = self.to_bytes();
-        let mut key_b = self.to_bytes();
+        let mut key_b = other.to_bytes();
 
         let result = key_a.ct_eq(&key_b)
             & self.attrs.depth.ct_eq(&other.attrs.depth)
-- 
2.43.0


From 2ba59a8689d733c0505958d6033beafc4364a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:05 +0000
Subject: [PATCH 2/6] fix: report an out-of-range tweak as an error instead of
 panicking

derive_child of the key traits unwrapped SecretKey::parse, which fails for
a zero tweak and for tweaks not below the group order.
---
 src/bip32/private_key.rs | 3 ++-
 src/bip32/public_key.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip32/private_key.rs b/src/bip32/private_key.rs
index e012792..b022369 100644
--- a/src/bip32/private_key.rs
+++ b/src/bip32/private_key.rs
@@ -45,7 +45,8 @@ impl PrivateKey for libsecp256k1::SecretKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()) {
+        let tweak = libsecp256k1::SecretKey::parse(&other).map_err(|_| Error::Crypto)?;
+        match cpk.tweak_add_assign(&tweak) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
diff --git a/src/bip32/public_key.rs b/src/bip32/public_key.rs
index 80c6163..b7ba974 100644
--- a/src/bip32/public_key.rs
+++ b/src/bip32/public_key.rs
@@ -48,7 +48,8 @@ impl PublicKey for libsecp256k1::PublicKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()){
+        let tweak = libsecp256k1::SecretKey::parse(&other).map_err(|_| Error::Crypto)?;
+        match cpk.tweak_add_assign(&tweak) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
-- 
2.43.0


From affb9178b9f9ebde9ab4d2375092b438b2d4730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:05 +0000
Subject: [PATCH 3/6] fix: prefix search on word lists that are not sorted

The Simplified Chinese list is ordered by frequency, so the binary search
missed 2041 of its 2048 words.
---
 src/bip39/language.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip39/language.rs b/src/bip39/language.rs
index 6e49c99..971090f 100644
--- a/src/bip39/language.rs
+++ b/src/bip39/language.rs
@@ -26,9 +26,11 @@ impl WordList {
     }
 
     pub fn get_words_by_prefix(&self, prefix: &str) -> &[&'static str] {
+        // Not a binary search: not every word list is sorted by code point
         let start = self.inner
-            .binary_search(&prefix)
-            .unwrap_or_else(|idx| idx);
+            .iter()
+            .position(|word| word.starts_with(prefix))
+            .unwrap_or(self.inner.len());
         let count = self.inner[start..].iter()
             .take_while(|word| word.starts_with(prefix))
             .count();
-- 
2.43.0


From a420dcdefbf2323287950a5a9504ffac8a4a2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:05 +0000
Subject: [PATCH 4/6] fix: reject depth 0 extended keys with a parent or child
 number

BIP32 lists such keys as invalid (test vector 5).
---
 src/bip32/extended_key/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bip32/extended_key/mod.rs b/src/bip32/extended_key/mod.rs
index 999d373..6fcd743 100644
--- a/src/bip32/extended_key/mod.rs
+++ b/src/bip32/extended_key/mod.rs
@@ -96,6 +96,13 @@ impl FromStr for ExtendedKey {
             chain_code,
         };
 
+        // A root key has neither a parent nor a child number
+        if attrs.depth == 0
+            && (attrs.parent_fingerprint != [0u8; 4] || attrs.child_number != ChildNumber::default())
+        {
+            return Err(Error::Decode);
+        }
+
         Ok(ExtendedKey {
             prefix,
             attrs,
-- 
2.43.0


From 55c64124fb4235131f6b8b9c86928df29d9c1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:05 +0000
Subject: [PATCH 5/6] fix: validate phrases the way from_phrase does

validate skipped the whitespace and NFKD normalisation, so it refused
phrases that from_phrase accepts.
---
 src/bip39/mnemonic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip39/mnemonic.rs b/src/bip39/mnemonic.rs
index f955f30..46f6cb7 100644
--- a/src/bip39/mnemonic.rs
+++ b/src/bip39/mnemonic.rs
@@ -175,7 +175,7 @@ impl Mnemonic {
     /// assert!(Mnemonic::validate(test_mnemonic, Language::English).is_ok());
     /// ```
     pub fn validate(phrase: &str, lang: Language) -> Result<(), Error> {
-        Mnemonic::phrase_to_entropy(phrase, lang)?;
+        Mnemonic::from_phrase(phrase, lang)?;
 
         Ok(())
     }
-- 
2.43.0


From e5dfe436adb5c69fe753f638910dad47a8ecfb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 6/6] fix: wipe the buffer an extended key is displayed from

---
 src/bip32/extended_key/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bip32/extended_key/mod.rs b/src/bip32/extended_key/mod.rs
index 6fcd743..e62af2e 100644
--- a/src/bip32/extended_key/mod.rs
+++ b/src/bip32/extended_key/mod.rs
@@ -59,9 +59,13 @@ impl ExtendedKey {
 impl Display for ExtendedKey {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut buf = [0u8; Self::MAX_BASE58_SIZE];
-        self.write_base58(&mut buf)
+        let result = self
+            .write_base58(&mut buf)
             .map_err(|_| fmt::Error)
-            .and_then(|base58| f.write_str(base58))
+            .and_then(|base58| f.write_str(base58));
+        buf.zeroize();
+
+        result
     }
 }
 
-- 
2.43.0

