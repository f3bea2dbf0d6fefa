From 20e2a4c0367580dd88eb0f798216f6c53724c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 01/46] fix: sum of input keys may be zero before the last
 input

create_silentpayment_partial_secret refused inputs whose keys cancel out
part-way, even when the total is a valid key and the receiver accepts the
transaction.
---
 silentpayments/src/send/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index fc4e345..49e4bec 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -45,12 +45,15 @@ pub fn create_silentpayment_partial_secret(
         return Err(SpSendError::MissingInputsForSharedSecretDerivation);
     }
 
-    // Use first derived_secret key to initialize a_sum
-    let mut a_sum = available_keys[0];
-    // Then skip first element to avoid reuse
-    for sk in available_keys.iter().skip(1) {
-        a_sum = a_sum.add_tweak(&Scalar::from(*sk))?;
-    }
+    // Only the total sum must be different from zero, as the sum of the first inputs may cancel out
+    // and still be followed by other inputs. `None` stands for zero here.
+    let a_sum = available_keys
+        .iter()
+        .fold(None, |maybe_sum: Option<SecretKey>, sk| match maybe_sum {
+            Some(sum) => sum.add_tweak(&Scalar::from(*sk)).ok(),
+            None => Some(*sk),
+        })
+        .ok_or(bitcoin::secp256k1::Error::InvalidTweak)?;
 
     #[allow(non_snake_case)]
     let A_sum = a_sum.public_key(&secp);
-- 
2.43.0


From 063890faac47979081fdfc23a38fe21367c278b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 02/46] fix: do not panic on taproot witnesses with a short
 control block

tag_txin is applied to arbitrary witness data and indexed past the end of
control blocks shorter than 33 bytes.
---
 silentpayments/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 8df3a80..5fbeebc 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -52,7 +52,7 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
                     .then(|| {
                         txin.witness
                             .taproot_control_block()
-                            .filter(|control_block| control_block[1..33] == NUMS_H)
+                            .filter(|control_block| control_block.get(1..33) == Some(&NUMS_H[..]))
                             // if P2TR has no internal key return None
                             .map_or(Some(Tr), |_| None)
                     })
-- 
2.43.0


From fb365a45546f09b96dc70b0d5876d21187747fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 03/46] fix: do not panic parsing a code without a payload

A string with a valid checksum and an empty data part has no version
character.
---
 silentpayments/src/encoding/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index acdebb6..53c3846 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -326,7 +326,10 @@ impl TryFrom<&str> for SilentPaymentCode {
         let hrp = checked_hrpstring.hrp();
         let mut payload = checked_hrpstring.fe32_iter::<&mut dyn Iterator<Item = u8>>();
 
-        let version = payload.nth(0).into_iter().collect::<Vec<_>>()[0].to_u8();
+        let version = payload
+            .next()
+            .ok_or(VersionError::WrongPayloadLength)?
+            .to_u8();
         let data = payload.fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-- 
2.43.0


From fbafa03a2b678b8bc5b2a6fdabdb2885abc1d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 04/46] fix: refuse v0 codes with non canonical padding

Up to 7 stray bits at the end of the payload were silently dropped, so
strings which are no encoding of any code were accepted.
---
 silentpayments/src/encoding/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index 53c3846..d634c27 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -330,10 +330,12 @@ impl TryFrom<&str> for SilentPaymentCode {
             .next()
             .ok_or(VersionError::WrongPayloadLength)?
             .to_u8();
-        let data = payload.fes_to_bytes().collect::<Vec<u8>>();
+        let fes = payload.collect::<Vec<Fe32>>();
+        let data = fes.iter().copied().fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-                if data.len() != 66 {
+                // The 2 padding bits should be zero and no other character should follow them
+                if data.len() != 66 || !data.iter().copied().bytes_to_fes().eq(fes) {
                     return Err(VersionError::WrongPayloadLength)?;
                 } else {
                     data
-- 
2.43.0


From a358133f4aac95b35c1068989d24d3b345078b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 05/46] fix: skip transactions spending outputs of future
 segwit versions

BIP352 excludes transactions which spend an output with segwit version
greater than 1; the tweak data of such transactions was computed anyway.
This uses the error variant which existed for it.
---
 silentpayments/src/receive/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/receive/mod.rs b/silentpayments/src/receive/mod.rs
index eb03d89..b022d92 100644
--- a/silentpayments/src/receive/mod.rs
+++ b/silentpayments/src/receive/mod.rs
@@ -8,7 +8,8 @@ use bitcoin::{
     self,
     key::{Parity, Secp256k1, TweakedPublicKey},
     secp256k1::{self, PublicKey, Scalar, SecretKey},
-    Amount, OutPoint, PubkeyHash, ScriptBuf, Transaction, TxIn, TxOut, Txid, XOnlyPublicKey,
+    Amount, OutPoint, PubkeyHash, ScriptBuf, Transaction, TxIn, TxOut, Txid, WitnessVersion,
+    XOnlyPublicKey,
 };
 use std::collections::BTreeMap;
 
@@ -247,6 +248,11 @@ pub fn compute_tweak_data(
     let mut input_pubkeys = <Vec<PublicKey>>::new();
     let mut lex_min = LexMin::default();
     for (txin, prevout) in tx.input.iter().zip(prevouts) {
+        if prevout.script_pubkey.witness_version() > Some(WitnessVersion::V1) {
+            return Err(SpReceiveError::PubKeyExtractionError(
+                "transaction spends an output with segwit version greater than 1",
+            ));
+        }
         lex_min.update(&txin.previous_output);
         // NOTE: Public keys which couldn't be extracted will be ignored
         if let Some((_, key)) = extract_pubkey(txin.clone(), &prevout.script_pubkey) {
-- 
2.43.0


From 96bbe467b6e1a92e0931b32eb9d4aacd739f2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 06/46] fix: do not panic indexing a transaction without
 eligible inputs

The v1 indexer is fed any transaction, and the shared secret cannot be
computed for those which spend no eligible input.
---
 indexer/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 85d735e..c6b308d 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -179,10 +179,11 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
         let prevouts = self.prevout_source.get_tx_prevouts(tx);
         let txid = tx.compute_txid();
-        let ecdh_shared_secret = self
-            .scanner
-            .get_shared_secret(tx, &prevouts)
-            .expect("infallible");
+        // A transaction without a shared secret (e.g. none of its inputs is eligible for the
+        // derivation) has no silent payment outputs
+        let Ok(ecdh_shared_secret) = self.scanner.get_shared_secret(tx, &prevouts) else {
+            return Ok(tx_graph::ChangeSet::default());
+        };
 
         let spouts = self.scanner.scan_txouts(tx, ecdh_shared_secret)?;
 
-- 
2.43.0


From 993d05760ac2df4f73dc9e1d0ce670f8af6663f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 07/46] fix: nested segwit inputs of a PSBT take part in the
 derivation

---
 silentpayments/src/send/psbt/mod.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 56c8a34..253a71b 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -327,19 +327,16 @@ fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf
 /// Returns a complete [`TxIn`] with witness or script_sig populated, or a [`SpSendError`] if
 /// neither final witness nor script_sig is available.
 fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSendError> {
-    if let Some(ref witness) = psbt_input.final_script_witness {
-        Ok(TxIn {
-            witness: witness.clone(),
-            ..txin.clone()
-        })
-    } else if let Some(ref script_sig) = psbt_input.final_script_sig {
-        Ok(TxIn {
-            script_sig: script_sig.clone(),
-            ..txin.clone()
-        })
-    } else {
-        Err(SpSendError::MissingWitness)
+    if psbt_input.final_script_witness.is_none() && psbt_input.final_script_sig.is_none() {
+        return Err(SpSendError::MissingWitness);
     }
+
+    // NOTE: Nested segwit inputs have both
+    Ok(TxIn {
+        witness: psbt_input.final_script_witness.clone().unwrap_or_default(),
+        script_sig: psbt_input.final_script_sig.clone().unwrap_or_default(),
+        ..txin.clone()
+    })
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-- 
2.43.0


From d40058b2438efca579b78b2270e74793d83b8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 08/46] fix: do not derive outputs from a PSBT without the keys
 of all eligible inputs

---
 silentpayments/src/send/psbt/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 253a71b..6fdbd21 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -233,6 +233,7 @@ where
 {
     let mut data_for_partial_secret = DataForPartialSecret::default();
     let mut lex_min = LexMin::default();
+    let mut missing_key = false;
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
@@ -253,12 +254,21 @@ where
                                     Err(SpSendError::KeyError)
                                 }
                             }
-                            Ok(None) => Ok(None),
+                            Ok(None) => {
+                                missing_key = true;
+                                Ok(None)
+                            }
                             Err(_) => Err(SpSendError::KeyError),
                         }
                     }
-                    _ => get_non_taproot_secret(psbt_input, k, secp)
-                        .map_err(|_| SpSendError::KeyError),
+                    (_, pubkey) => match get_non_taproot_secret(psbt_input, k, secp) {
+                        Ok(Some(secret)) if secret.public_key(secp) == pubkey => Ok(Some(secret)),
+                        Ok(None) => {
+                            missing_key = true;
+                            Ok(None)
+                        }
+                        Ok(Some(_)) | Err(_) => Err(SpSendError::KeyError),
+                    },
                 })
                 .transpose()?
                 .flatten()
@@ -275,6 +285,9 @@ where
 
     if data_for_partial_secret.scripts_with_secrets.is_empty() {
         Err(SpSendError::MissingInputsForSharedSecretDerivation)
+    } else if missing_key {
+        // Leaving out an input the receiver counts in produces outputs nobody can find
+        Err(SpSendError::KeyError)
     } else {
         data_for_partial_secret.lex_min_outpoint = lex_min
             .bytes()
-- 
2.43.0


From 83d5e038e5c38b3cbb7d833e1779d5c9b33b031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 09/46] fix: find the taproot output key among the keys of the
 script tree

---
 silentpayments/src/send/psbt/mod.rs | 39 ++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 6fdbd21..e41a7bc 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -455,15 +455,36 @@ where
         }
     };
 
-    psbt_input
-        .tap_key_origins
-        .iter()
-        .find_map(|key_origin| match try_tr_keys(key_origin) {
-            Ok(Some(private_key)) => Some(Ok(get_taproot_output_key(private_key))),
-            Ok(None) => None,
-            Err(e) => Some(Err(e)),
-        })
-        .transpose()
+    let is_output_key = |secret: &SecretKey| match &psbt_input.witness_utxo {
+        Some(txout) if txout.script_pubkey.is_p2tr() => {
+            let (xonly, _) = secret.x_only_public_key(secp);
+            txout.script_pubkey.as_bytes()[2..] == xonly.serialize()
+        }
+        _ => true,
+    };
+
+    // The key origins include the keys of the script tree, so the first key available is not
+    // always the one behind the output key
+    let mut fallback = Ok(None);
+    for key_origin in &psbt_input.tap_key_origins {
+        match try_tr_keys(key_origin) {
+            Ok(Some(private_key)) => {
+                let secret = get_taproot_output_key(private_key);
+                if is_output_key(&secret) {
+                    return Ok(Some(secret));
+                }
+                fallback = Ok(Some(secret));
+            }
+            Ok(None) => (),
+            Err(e) => {
+                if !matches!(fallback, Ok(Some(_))) {
+                    fallback = Err(e);
+                }
+            }
+        }
+    }
+
+    fallback
 }
 
 /// Retrieves the secret key for a non-taproot input from [`Psbt`] data.
-- 
2.43.0


From f1cdecf1f6777c31fd2fa71cc903488ab5d37a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 10/46] fix: recipients without an output in the PSBT do not
 use up derivation indexes

---
 silentpayments/src/send/psbt/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index e41a7bc..c4b5169 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -199,7 +199,20 @@ where
 
     let partial_secret =
         create_silentpayment_partial_secret(&lex_min_outpoint, &scripts_with_secrets)?;
-    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, recipients);
+    // A recipient without an output must not use up an index of the shared secret, as receivers
+    // stop scanning at the first index without an output
+    let recipients = recipients
+        .iter()
+        .filter(|sp_code| {
+            let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
+            psbt.unsigned_tx
+                .output
+                .iter()
+                .any(|txout| txout.script_pubkey == placeholder_spk)
+        })
+        .cloned()
+        .collect::<Vec<SilentPaymentCode>>();
+    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, &recipients);
 
     update_outputs(psbt, &silent_payments)?;
 
-- 
2.43.0


From 63131a0d7d9697d5e958ba3b578d6d8c477f2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 11/46] fix: leave the PSBT outputs alone when deriving any of
 them fails

---
 silentpayments/src/send/psbt/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index c4b5169..b1ee4e3 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -13,7 +13,7 @@ use bitcoin::{
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
     psbt::{self, GetKey, KeyRequest},
     secp256k1::{SecretKey, Signing},
-    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, XOnlyPublicKey,
+    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, XOnlyPublicKey,
 };
 
 #[cfg(feature = "psbt_sp_spend")]
@@ -577,6 +577,8 @@ fn update_outputs(
         map
     };
 
+    // Replace the outputs only after all of them have been checked
+    let mut replacements = <Vec<(usize, ScriptBuf)>>::new();
     for (sp_code, x_only_pks) in silent_payments.iter() {
         let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
 
@@ -587,17 +589,16 @@ fn update_outputs(
                 Ordering::Equal => {
                     for (idx, xonly_pk) in indexes.iter().zip(x_only_pks) {
                         let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(*xonly_pk);
-                        let value = psbt.unsigned_tx.output[*idx].value;
-
-                        psbt.unsigned_tx.output[*idx] = TxOut {
-                            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
-                            value,
-                        };
+                        replacements.push((*idx, ScriptBuf::new_p2tr_tweaked(x_only_tweaked)));
                     }
                 }
             }
         }
     }
 
+    for (idx, script_pubkey) in replacements {
+        psbt.unsigned_tx.output[idx].script_pubkey = script_pubkey;
+    }
+
     Ok(())
 }
-- 
2.43.0


From c93f53959fbf2933ec4e1c98dbfd0ec0da3e2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 12/46] fix: do not panic on malformed silent payment data in a
 PSBT

---
 silentpayments/src/send/psbt/mod.rs  | 46 ++++++++++------------------
 silentpayments/src/send/psbt/sign.rs | 45 ++++++++++++++-------------
 2 files changed, 41 insertions(+), 50 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index b1ee4e3..78eeb38 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -16,9 +16,6 @@ use bitcoin::{
     PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, XOnlyPublicKey,
 };
 
-#[cfg(feature = "psbt_sp_spend")]
-use bitcoin::secp256k1::{PublicKey, Scalar};
-
 use std::{
     cmp::Ordering,
     collections::{BTreeMap, HashMap},
@@ -385,32 +382,23 @@ where
     K: GetKey<Error = E>,
 {
     for (key, value) in psbt_input.proprietary.clone() {
-        if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-            let mut scalar = [0u8; 32];
-            scalar.clone_from_slice(value.as_slice());
-
-            let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-            let output_key = if let Some(txout) = &psbt_input.witness_utxo {
-                XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                    .expect("p2tr script")
-            } else {
-                continue;
-            };
-            let tweaked_spend_pk = spend_pk
-                .add_exp_tweak(secp, &tweak)
-                .expect("will fix later");
-            let spend_sk = if let Ok(Some(sk)) =
-                k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
-            {
-                sk
-            } else {
-                continue;
-            };
-            if tweaked_spend_pk.x_only_public_key().0 == output_key {
-                let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
-                return Ok(Some(sk));
-            }
+        let Some((spend_pk, tweak)) = sign::parse_sp_data(&key, &value) else {
+            continue;
+        };
+        let output_key = match &psbt_input.witness_utxo {
+            Some(txout) if txout.script_pubkey.is_p2tr() => &txout.script_pubkey.as_bytes()[2..],
+            _ => continue,
+        };
+        let Ok(Some(spend_sk)) =
+            k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
+        else {
+            continue;
+        };
+        let Ok(sk) = spend_sk.inner.add_tweak(&tweak) else {
+            continue;
+        };
+        if sk.x_only_public_key(secp).0.serialize() == output_key {
+            return Ok(Some(sk));
         }
     }
 
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index a209e61..23bcf32 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -4,7 +4,7 @@ use bitcoin::{
     secp256k1::{Message, PublicKey, Scalar, Signing},
     sighash::{Prevouts, SighashCache},
     taproot::Signature,
-    Psbt, TapSighashType, TxOut, XOnlyPublicKey,
+    Psbt, TapSighashType, TxOut,
 };
 
 pub const SPEND_PK_SUBTYPE: u8 = 0x01;
@@ -29,6 +29,17 @@ pub fn add_sp_data_to_input(
     }
 }
 
+/// Gets the spend public key and the tweak from a proprietary field of an input, provided that it
+/// is well formed silent payment data.
+pub(super) fn parse_sp_data(key: &ProprietaryKey, value: &[u8]) -> Option<(PublicKey, Scalar)> {
+    if key.prefix != b"bip352" || key.subtype != self::SPEND_PK_SUBTYPE {
+        return None;
+    }
+    let spend_pk = PublicKey::from_slice(&key.key).ok()?;
+    let tweak = Scalar::from_be_bytes(value.try_into().ok()?).ok()?;
+    Some((spend_pk, tweak))
+}
+
 pub fn sign_sp<C, K>(psbt: &mut Psbt, k: &K, secp: &Secp256k1<C>)
 where
     C: Signing + Verification,
@@ -39,30 +50,23 @@ where
 
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
-            if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-                let mut scalar = [0u8; 32];
-                scalar.clone_from_slice(value.as_slice());
-
-                let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-                let output_key = if let Some(txout) = &psbt.inputs[i].witness_utxo {
-                    XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                        .expect("p2tr script")
-                } else {
-                    continue;
+            if let Some((spend_pk, tweak)) = parse_sp_data(&key, &value) {
+                let output_key = match &psbt.inputs[i].witness_utxo {
+                    Some(txout) if txout.script_pubkey.is_p2tr() => {
+                        txout.script_pubkey.as_bytes()[2..].to_vec()
+                    }
+                    _ => continue,
                 };
-                let tweaked_spend_pk = spend_pk
-                    .add_exp_tweak(secp, &tweak)
-                    .expect("will fix later");
-                let spend_sk = if let Ok(Some(sk)) =
+                let Ok(Some(spend_sk)) =
                     k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
-                {
-                    sk
-                } else {
+                else {
+                    continue;
+                };
+                let Ok(sk) = spend_sk.inner.add_tweak(&tweak) else {
                     continue;
                 };
                 if psbt.inputs[i].tap_key_sig.is_none()
-                    && tweaked_spend_pk.x_only_public_key().0 == output_key
+                    && sk.x_only_public_key(secp).0.serialize() == output_key.as_slice()
                 {
                     let sighash_type = TapSighashType::Default;
                     let prevouts = psbt
@@ -79,7 +83,6 @@ where
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
 
-                    let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
                     let keypair = Keypair::from_secret_key(secp, &sk);
 
                     let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
-- 
2.43.0


From 74b2d48625be56d75b872a225624793c114ab126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 13/46] fix: sign silent payment inputs next to inputs without
 a witness utxo

---
 silentpayments/src/send/psbt/sign.rs | 32 +++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index 23bcf32..ad85a1e 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -48,6 +48,25 @@ where
     let tx = psbt.unsigned_tx.clone(); // clone because we need to mutably borrow when signing.
     let mut cache = SighashCache::new(&tx);
 
+    // Taproot signatures commit to all the outputs spent, without them there is nothing to sign
+    let Some(prevouts) = psbt
+        .inputs
+        .iter()
+        .zip(tx.input.iter())
+        .map(|(input, txin)| {
+            input.witness_utxo.clone().or_else(|| {
+                let prev_tx = input.non_witness_utxo.as_ref()?;
+                prev_tx
+                    .output
+                    .get(txin.previous_output.vout as usize)
+                    .cloned()
+            })
+        })
+        .collect::<Option<Vec<TxOut>>>()
+    else {
+        return;
+    };
+
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
             if let Some((spend_pk, tweak)) = parse_sp_data(&key, &value) {
@@ -69,15 +88,12 @@ where
                     && sk.x_only_public_key(secp).0.serialize() == output_key.as_slice()
                 {
                     let sighash_type = TapSighashType::Default;
-                    let prevouts = psbt
-                        .inputs
-                        .iter()
-                        .map(|x| x.witness_utxo.clone().unwrap())
-                        .collect::<Vec<TxOut>>();
-                    let prevouts = Prevouts::All(&prevouts);
-
                     let sighash = cache
-                        .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                        .taproot_key_spend_signature_hash(
+                            i,
+                            &Prevouts::All(&prevouts),
+                            sighash_type,
+                        )
                         .expect("failed to construct sighash");
 
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-- 
2.43.0


From 3591d9c3136e96b883cb59481285489ed929d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 14/46] fix: refuse to derive outputs of transactions which
 receivers skip

---
 silentpayments/src/send/error.rs    | 3 +++
 silentpayments/src/send/psbt/mod.rs | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/error.rs b/silentpayments/src/send/error.rs
index 235ec50..bdc9d69 100644
--- a/silentpayments/src/send/error.rs
+++ b/silentpayments/src/send/error.rs
@@ -16,6 +16,8 @@ pub enum SpSendError {
     IndexError(bitcoin::blockdata::transaction::OutputsIndexError),
     /// PSBT missing silent payment placeholder script
     MissingPlaceholderScript,
+    /// Receivers skip transactions which spend outputs of future segwit versions
+    FutureSegwitInput,
     /// Error while requesting keys
     KeyError,
     /// There are not enough silent payment derivations for all targeted outputs
@@ -61,6 +63,7 @@ impl std::fmt::Display for SpSendError {
                 f,
                 "From PSBT, missing witness to get public key to derive silent payment output"
             ),
+            Self::FutureSegwitInput => write!(f, "Receivers skip transactions which spend outputs of segwit versions greater than 1"),
             Self::MissingDerivations => write!(f, "From PSBT, there are not enough silent payment derivations for all targeted outputs"),
             Self::MissingOutputs => write!(f, "From PSBT, there are not enough outputs for the silent payments derived"),
             Self::MissingPrevout => write!(f, "From PSBT, unable to extract prevout script pubkey"),
diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 78eeb38..6fb9d79 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -13,7 +13,7 @@ use bitcoin::{
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
     psbt::{self, GetKey, KeyRequest},
     secp256k1::{SecretKey, Signing},
-    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, XOnlyPublicKey,
+    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, WitnessVersion, XOnlyPublicKey,
 };
 
 use std::{
@@ -73,6 +73,7 @@ impl Default for DataForPartialSecret {
 /// # Errors
 ///
 /// * [`SpSendError::MissingInputsForSharedSecretDerivation`] - No usable inputs found for derivation
+/// * [`SpSendError::FutureSegwitInput`] - Spends an output receivers skip the transaction for
 /// * [`SpSendError::KeyError`] - Failed to retrieve required private keys
 /// * [`SpSendError::MissingDerivations`] - Insufficient derivations for placeholder outputs
 /// * [`SpSendError::MissingOutputs`] - Insufficient outputs for derived keys
@@ -247,6 +248,9 @@ where
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
+        if prevout.witness_version() > Some(WitnessVersion::V1) {
+            return Err(SpSendError::FutureSegwitInput);
+        }
 
         let maybe_secret_key = if let Ok(Some(secret)) = get_sp_secret(psbt_input, k, secp) {
             Some(secret)
-- 
2.43.0


From 53af3c274dadecfece5f4bbf5eb7a3636e701930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 15/46] fix: do not taproot tweak the keys of other script
 types when sending from an extended key

---
 silentpayments/src/send/bip32.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index bb00940..bb68455 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -36,6 +36,12 @@ impl XprivSilentPaymentSender {
 
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
             let mut internal_privkey = bip32_privkey.private_key;
+
+            if !spk.is_p2tr() {
+                spks_with_keys.push((spk.clone(), internal_privkey));
+                continue;
+            }
+
             let (x_only_internal, parity) = internal_privkey.x_only_public_key(&secp);
 
             if let Parity::Odd = parity {
-- 
2.43.0


From fc49ba7f6e79595f61ce491702ab4ec2a727e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 16/46] fix: keep every output paying to the same script

---
 indexer/src/v2/indexes.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index e6c4c8d..dbc0bdd 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -12,7 +12,7 @@ use serde::{
     Deserialize, Serialize,
 };
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
     fmt,
 };
 
@@ -167,7 +167,8 @@ mod scalar_serde {
 #[derive(Clone, Debug, Default, PartialEq)]
 pub struct SpIndex {
     pub num_to_label: HashMap<u32, PublicKey>,
-    pub by_script: HashMap<ScriptBuf, OutPoint>,
+    /// Outputs by script: a replacement pays to the same script as the transaction it replaces.
+    pub by_script: HashMap<ScriptBuf, BTreeSet<OutPoint>>,
     pub by_label: HashSet<(Option<u32>, OutPoint)>,
     pub by_shared_secret: BTreeMap<OutPoint, SecretKey>,
     // -----------------------------------------------
@@ -190,21 +191,27 @@ impl SpIndex {
         let sp_meta = SpMeta::from(&spout);
         let txout: TxOut = TxOut::from(&spout);
         self.by_shared_secret.insert(outpoint, spout.tweak);
-        self.by_script.insert(txout.script_pubkey, outpoint);
+        self.by_script
+            .entry(txout.script_pubkey)
+            .or_default()
+            .insert(outpoint);
         self.by_label.insert((sp_meta.label, outpoint));
     }
 
     pub fn by_xonly(&self) -> impl Iterator<Item = (XOnlyPublicKey, &OutPoint)> {
-        self.by_script.iter().map(|(script_pubkey, outpoint)| {
-            let xonly =
-                XOnlyPublicKey::from_slice(&script_pubkey.as_bytes()[2..]).expect("p2tr script");
-            (xonly, outpoint)
-        })
+        self.by_script
+            .iter()
+            .flat_map(|(script_pubkey, outpoints)| {
+                let xonly = XOnlyPublicKey::from_slice(&script_pubkey.as_bytes()[2..])
+                    .expect("p2tr script");
+                outpoints.iter().map(move |outpoint| (xonly, outpoint))
+            })
     }
 
     pub fn get_by_script(&self, script: &ScriptBuf) -> Option<&SecretKey> {
         self.by_script
             .get(script)
+            .and_then(|outpoints| outpoints.first())
             .and_then(|outpoint| self.by_shared_secret.get(outpoint))
     }
 
-- 
2.43.0


From 02debe3a7ddd120550de92037b6af3ca3c858c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:09 +0000
Subject: [PATCH 17/46] fix: adding a label finds the outputs paying to it in
 known transactions

---
 indexer/src/v2/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 46681a6..04632c5 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -57,9 +57,20 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         let label = self.sp_pub.create_label(num);
         self.index.index_label(&label);
         changeset.label_lookup.insert(label);
+        self.reindex();
         changeset
     }
 
+    /// Looks for outputs in the known transactions again, as an indexer restored from the same
+    /// data does.
+    fn reindex(&mut self) {
+        for (txid, partial_secret) in self.index.txid_to_partial_secret.clone() {
+            if let Some(tx) = self.graph.get_tx(txid) {
+                let _ = self.index_tx(tx.as_ref(), &partial_secret);
+            }
+        }
+    }
+
     pub fn get_address(&self, network: Network) -> SilentPaymentCode {
         let secp = Secp256k1::signing_only();
         let scan_pk = self.sp_pub.scan_sk.public_key(&secp);
-- 
2.43.0


From 92026a41ca50750039497c727eb5aac8f4aedce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 18/46] fix: a changeset with keys is not empty

---
 indexer/src/v2/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 04632c5..765b8da 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -448,7 +448,9 @@ impl<A: Ord> Merge for ChangeSet<A> {
     }
 
     fn is_empty(&self) -> bool {
-        self.txid_to_partial_secret.is_empty()
+        self.scan_sk.is_none()
+            && self.spend_pk.is_none()
+            && self.txid_to_partial_secret.is_empty()
             && self.label_lookup.is_empty()
             && self.graph.is_empty()
     }
-- 
2.43.0


From b218778aa491b5a9d302de0cba166242e9661165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 19/46] fix: return the changes of labels registered by
 get_labeled_address

---
 indexer/src/v2/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 765b8da..06289b9 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -77,18 +77,25 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         SilentPaymentCode::new_v0(scan_pk, self.sp_pub.spend_pk, network)
     }
 
-    pub fn get_labeled_address(&mut self, num: u32, network: Network) -> SilentPaymentCode {
-        let label_tweak = if let Some(label) = self.index.get_label(num) {
-            label
+    /// Returns the address with label `num`, and the changes of registering the label, which must
+    /// be persisted to find payments to the address after a restart.
+    pub fn get_labeled_address(
+        &mut self,
+        num: u32,
+        network: Network,
+    ) -> (SilentPaymentCode, ChangeSet<A>) {
+        let (label_tweak, changeset) = if let Some(label) = self.index.get_label(num) {
+            (label, ChangeSet::default())
         } else {
-            let _ = self.add_label(num);
-            self.index.get_label(num).expect("just added")
+            let changeset = self.add_label(num);
+            (self.index.get_label(num).expect("just added"), changeset)
         };
 
-        let sp_code = self.get_address(network);
-        sp_code
+        let sp_code = self
+            .get_address(network)
             .add_label(label_tweak)
-            .expect("computationally unreachable: tweak is the output of a hash function")
+            .expect("computationally unreachable: tweak is the output of a hash function");
+        (sp_code, changeset)
     }
 
     pub fn scan_sk(&self) -> &SecretKey {
-- 
2.43.0


From ea31fea4e3d56abe7e3f9c1215e68c239e3b820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 20/46] fix: labels can be read back from JSON

---
 indexer/src/v2/indexes.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index dbc0bdd..251510f 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -157,6 +157,23 @@ mod scalar_serde {
                 arr.copy_from_slice(v);
                 Ok(arr)
             }
+
+            // Formats without a byte type (e.g. JSON) write bytes as a sequence
+            fn visit_seq<S>(self, mut seq: S) -> Result<Self::Value, S::Error>
+            where
+                S: de::SeqAccess<'de>,
+            {
+                let mut arr = [0u8; 32];
+                for (i, byte) in arr.iter_mut().enumerate() {
+                    *byte = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;
+                }
+                match seq.next_element::<u8>()? {
+                    Some(_) => Err(de::Error::invalid_length(33, &self)),
+                    None => Ok(arr),
+                }
+            }
         }
 
         let bytes = de.deserialize_bytes(Bytes32Visitor)?;
-- 
2.43.0


From add6fadf0d1a6b14c7cd8a87aaa1476af3182355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:36 +0000
Subject: [PATCH 21/46] fix: apply the changesets returned by the indexer

---
 indexer/src/v2/mod.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 06289b9..21d803b 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -114,24 +114,25 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         &self.index
     }
 
+    /// Applies `changeset`, which is ignored if it comes from an indexer with other keys.
     pub fn apply_changeset(&mut self, changeset: ChangeSet<A>) {
-        if changeset
+        let other_scan_sk = changeset
             .scan_sk
-            .is_some_and(|scan_sk| scan_sk == *self.scan_sk())
-            && changeset
-                .spend_pk
-                .is_some_and(|spend_pk| spend_pk == *self.spend_pk())
-        {
-            self.graph.apply_changeset(changeset.graph);
-            changeset.label_lookup.iter().for_each(|label| {
-                self.index.index_label(label);
-            });
-            for (txid, partial_secret) in changeset.txid_to_partial_secret.iter() {
-                if let Some(tx) = self.graph.get_tx(*txid) {
-                    let _ = self.index_tx(tx.as_ref(), partial_secret);
-                }
-            }
+            .is_some_and(|scan_sk| scan_sk != *self.scan_sk());
+        let other_spend_pk = changeset
+            .spend_pk
+            .is_some_and(|spend_pk| spend_pk != *self.spend_pk());
+        if other_scan_sk || other_spend_pk {
+            return;
         }
+        self.graph.apply_changeset(changeset.graph);
+        changeset.label_lookup.iter().for_each(|label| {
+            self.index.index_label(label);
+        });
+        for (txid, partial_secret) in changeset.txid_to_partial_secret {
+            self.index.index_partial_secret(txid, partial_secret);
+        }
+        self.reindex();
     }
 
     pub fn derive_spks_for_tweak(&self, tweak: &PublicKey) -> Vec<[u8; 34]> {
-- 
2.43.0


From 99715f9e5f72f160bd3327720ee91e029b7b347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 22/46] fix: queue the filter of the latest block at a height

---
 oracles/src/filters/kyoto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index f48ff40..e3b0a90 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -48,7 +48,8 @@ impl DatabaseBuffer {
     }
 
     pub fn push_filter(&mut self, filter: IndexedFilter) -> Option<WriteRange> {
-        self.queue.insert(filter);
+        // A filter already queued for this height is of a block which is no longer in the chain.
+        self.queue.replace(filter);
         if self.queue.len() > QUEUE_SIZE {
             return Some(self.write_queue());
         }
-- 
2.43.0


From 93bade2a0df56d443c40e12ab43447f33038a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:31 +0000
Subject: [PATCH 23/46] fix: stop instead of panicking when nobody receives the
 tip

---
 oracles/src/filters/kyoto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index e3b0a90..36b185c 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -98,7 +98,9 @@ impl FilterSubscriber {
                         height: tip.height,
                         hash: tip.hash,
                     };
-                    self.sender.send(FilterEvent::Tip(tip)).unwrap();
+                    if self.sender.send(FilterEvent::Tip(tip)).is_err() {
+                        return Err(UpdateError::ChannelClosed);
+                    }
                 }
                 Event::IndexedFilter(filter) => {
                     if filter.height() < self.birthday {
-- 
2.43.0


From 481beb9a1e0f13ba5d03e46706a832373abdff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 24/46] fix: report matches in the order of the chain

---
 oracles/src/tweaks/blindbit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 0b77150..1bb9b98 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -192,7 +192,8 @@ impl BlindbitSubscriber {
                     }
                 }
             })
-            .buffer_unordered(200);
+            // in the order of the chain: an output must be known before it is spent
+            .buffered(200);
 
         let read = self.db.lock().unwrap().begin_read().unwrap();
         let table = read.open_table(TABLE_DEF).unwrap();
-- 
2.43.0


From cefc17787f97686b5690144ae3b52d3e0674cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 25/46] fix: look for spent outputs in blocks without tweaks

---
 oracles/src/tweaks/blindbit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 1bb9b98..f57d1b7 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -216,11 +216,11 @@ impl BlindbitSubscriber {
                 .collect::<HashMap<[u8; 34], PublicKey>>();
 
             let mut only_spks: Vec<[u8; 34]> = all_spks.clone().into_keys().collect();
-            // unspent script pubkeys can only be present in blocks with tweaks, because they are
-            // by themselves inputs available for shared secret derivation
+            // unspent script pubkeys can be present in blocks without tweaks, because a transaction
+            // which spends them without creating any p2tr output has no tweak
             only_spks.extend_from_slice(&self.unspent_script_pubkeys);
 
-            if !all_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
+            if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-- 
2.43.0


From 8185c076df87bbc04c257c9210c004b24f146864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:38 +0000
Subject: [PATCH 26/46] fix: look for spends of outputs received since the
 start

---
 indexer/src/v2/mod.rs          | 11 +++++++++--
 oracles/src/tweaks/blindbit.rs | 19 +++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 21d803b..cfe73c9 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -135,7 +135,14 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         self.reindex();
     }
 
+    /// The script pubkeys of the first output which a transaction with this `tweak` may pay us.
     pub fn derive_spks_for_tweak(&self, tweak: &PublicKey) -> Vec<[u8; 34]> {
+        self.derive_spks_for_tweak_at(tweak, 0u32)
+    }
+
+    /// The script pubkeys of the output at index `k` of the silent payment outputs which a
+    /// transaction with this `tweak` may pay us.
+    pub fn derive_spks_for_tweak_at(&self, tweak: &PublicKey, k: u32) -> Vec<[u8; 34]> {
         let ecdh_shared_secret = compute_shared_secret(self.scan_sk(), tweak);
 
         let mut script_pubkeys = self
@@ -146,7 +153,7 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
                 get_silentpayment_script_pubkey(
                     self.spend_pk(),
                     &ecdh_shared_secret,
-                    0u32,
+                    k,
                     Some(label_pk),
                 )
             })
@@ -155,7 +162,7 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         script_pubkeys.push(get_silentpayment_script_pubkey(
             self.spend_pk(),
             &ecdh_shared_secret,
-            0u32,
+            k,
             None,
         ));
 
diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index f57d1b7..8151ebc 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -222,6 +222,25 @@ impl BlindbitSubscriber {
 
             if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
+                // outputs received in this block can be spent in the following ones
+                let is_present =
+                    |spk: &[u8; 34]| filter.match_any(&hash, core::iter::once(*spk)).unwrap();
+                let mut received_spks = Vec::<[u8; 34]>::new();
+                for (spk, tweak) in all_spks.iter() {
+                    if !is_present(spk) {
+                        continue;
+                    }
+                    received_spks.push(*spk);
+                    for k in 1u32.. {
+                        let mut next_spks = self.indexer.derive_spks_for_tweak_at(tweak, k);
+                        next_spks.retain(is_present);
+                        if next_spks.is_empty() {
+                            break;
+                        }
+                        received_spks.extend(next_spks);
+                    }
+                }
+                self.unspent_script_pubkeys.extend(received_spks);
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
                     .unwrap();
-- 
2.43.0


From d2fda440f7d82fcfffdcd2ac85b4e8492cd6bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 27/46] fix: stop instead of panicking when nobody receives the
 matches

---
 oracles/src/tweaks/blindbit.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 8151ebc..812e62d 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -1,4 +1,4 @@
-use crate::filters::kyoto::{DatabaseBuffer, FilterEvent, WriteRange, TABLE_DEF};
+use crate::filters::kyoto::{DatabaseBuffer, FilterEvent, UpdateError, WriteRange, TABLE_DEF};
 use bip157::{tokio::sync::mpsc::UnboundedSender, BlockFilter, BlockHash, UnboundedReceiver};
 use bitcoin::{
     absolute::Height, hashes::serde::Deserialize, secp256k1::PublicKey, Amount, Network,
@@ -157,18 +157,21 @@ impl BlindbitSubscriber {
 
     pub async fn run(&mut self) {
         while let Some(filter_event) = self.requests.recv().await {
-            match filter_event {
-                FilterEvent::Changes(changes) => {
-                    self.process_changes(changes).await;
-                }
-                FilterEvent::Tip(tip) => {
-                    self.sender.send(TweakEvent::Synced(tip)).unwrap();
-                }
+            let result = match filter_event {
+                FilterEvent::Changes(changes) => self.process_changes(changes).await,
+                FilterEvent::Tip(tip) => self
+                    .sender
+                    .send(TweakEvent::Synced(tip))
+                    .map_err(|_| UpdateError::ChannelClosed),
+            };
+            if let Err(e) = result {
+                tracing::info!("Stopping the tweak subscriber: {e}");
+                return;
             }
         }
     }
 
-    async fn process_changes(&mut self, changes: WriteRange) {
+    async fn process_changes(&mut self, changes: WriteRange) -> Result<(), UpdateError> {
         let base = changes
             .writes
             .last_key_value()
@@ -243,8 +246,9 @@ impl BlindbitSubscriber {
                 self.unspent_script_pubkeys.extend(received_spks);
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-                    .unwrap();
+                    .map_err(|_| UpdateError::ChannelClosed)?;
             }
         }
+        Ok(())
     }
 }
-- 
2.43.0


From cc54dd3c86b03d09f31486ac3c12056c3213aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 28/46] fix: keep the birthday when merging into an empty
 changeset

---
 wallet/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 5235102..8a27abd 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -75,6 +75,10 @@ impl Merge for ChangeSet {
                 self.network.is_none() || self.network == other.network,
                 "network must never change"
             );
+            // the birthday is set along with the network
+            if self.network.is_none() {
+                self.birthday = other.birthday;
+            }
             self.network = other.network;
         }
 
-- 
2.43.0


From a9869fdf523d97d8f941ecaf9aa882286fb9eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 29/46] fix: stage nothing in a wallet which was just restored

---
 wallet/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 8a27abd..2d04a59 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -590,14 +590,14 @@ impl TryFrom<ChangeSet> for SpWallet {
     // TODO: Improve the Error returned
     fn try_from(value: ChangeSet) -> Result<Self, Self::Error> {
         if let Some(network) = value.network {
-            let chain = LocalChain::from_changeset(value.chain.clone()).map_err(|_| ())?;
-            let indexer = SpIndexer::try_from(value.indexer.clone())?;
+            let chain = LocalChain::from_changeset(value.chain).map_err(|_| ())?;
+            let indexer = SpIndexer::try_from(value.indexer)?;
             Ok(Self {
                 birthday: value.birthday,
                 network,
                 chain,
                 indexer,
-                stage: value,
+                stage: ChangeSet::default(),
             })
         } else {
             Err(())
-- 
2.43.0


From eed9d64b0bcd1598a26350e8c097ef3605e19f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 30/46] fix: sign every input of a PSBT with its own sighash in
 the v1 cli

---
 cli/v1/src/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index a0bc788..3d90e7e 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -919,12 +919,7 @@ fn main() -> anyhow::Result<()> {
                 .collect::<Vec<TxOut>>();
             let prevouts = Prevouts::All(&prevouts);
 
-            let sighash = SighashCache::new(&mut psbt.unsigned_tx)
-                .taproot_key_spend_signature_hash(0, &prevouts, sighash_type)
-                .expect("failed to construct sighash");
-
-            // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-            let msg = Message::from(sighash);
+            let mut sighash_cache = SighashCache::new(&psbt.unsigned_tx);
 
             for i in 0..psbt.inputs.len() {
                 let psbt_input = &mut psbt.inputs[i];
@@ -934,6 +929,13 @@ fn main() -> anyhow::Result<()> {
                         let keypair = Keypair::from_secret_key(&secp, &sk);
                         let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
 
+                        let sighash = sighash_cache
+                            .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                            .expect("failed to construct sighash");
+
+                        // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
+                        let msg = Message::from(sighash);
+
                         let signature = secp.sign_schnorr(&msg, &keypair);
 
                         let signature = Signature {
-- 
2.43.0


From 8b6182ad6fb05029f5e2a11ba08d13c8d4f127e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 31/46] fix: replace only the requested output by a silent
 payment in the v1 cli

---
 cli/v1/src/main.rs | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 3d90e7e..1efecfa 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -372,13 +372,13 @@ fn main() -> anyhow::Result<()> {
         } => {
             let mut psbt = Psbt::from_str(psbt.as_str())?;
 
-            let single_external_txout = psbt
+            let single_external_index = psbt
                 .unsigned_tx
                 .output
                 .iter()
-                .find(|x| x.value == Amount::from_sat(amount))
-                .expect("send to multiple addresses not implemented yet")
-                .clone();
+                .position(|x| x.value == Amount::from_sat(amount))
+                .expect("send to multiple addresses not implemented yet");
+            let single_external_txout = psbt.unsigned_tx.output[single_external_index].clone();
 
             if !single_external_txout.script_pubkey.is_p2tr() {
                 bail!("can only replace p2tr outputs");
@@ -463,19 +463,8 @@ fn main() -> anyhow::Result<()> {
                 })
                 .collect::<Vec<TxOut>>();
 
-            psbt.unsigned_tx.output = psbt
-                .unsigned_tx
-                .output
-                .into_iter()
-                .map(|x| {
-                    if x.script_pubkey == single_external_txout.script_pubkey {
-                        // TODO: Generalize for all outputs to replace
-                        txouts[0].clone()
-                    } else {
-                        x
-                    }
-                })
-                .collect();
+            // TODO: Generalize for all outputs to replace
+            psbt.unsigned_tx.output[single_external_index] = txouts[0].clone();
 
             if debug {
                 dbg!(psbt);
-- 
2.43.0


From c6822f8778fa58416fb6a2e2900dff4257be2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 32/46] fix: refuse to derive a silent payment without the keys
 of all inputs in the v1 cli

---
 cli/v1/src/main.rs | 89 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 21 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 1efecfa..cec1c80 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -33,8 +33,8 @@ use bdk_sp::{
         sighash::{Prevouts, SighashCache},
         taproot::Signature,
         transaction::Version,
-        Address, Amount, Block, Network, OutPoint, Psbt, ScriptBuf, Sequence, TapSighashType,
-        Transaction, TxIn, TxOut, XOnlyPublicKey,
+        Address, Amount, Block, CompressedPublicKey, Network, OutPoint, Psbt, ScriptBuf, Sequence,
+        TapSighashType, Transaction, TxIn, TxOut, XOnlyPublicKey,
     },
     encoding::SilentPaymentCode,
     receive::{scan::Scanner, SpOut},
@@ -411,32 +411,51 @@ fn main() -> anyhow::Result<()> {
             let mut outputs_and_derivation_paths =
                 <Vec<(OutPoint, (ScriptBuf, DerivationPath))>>::new();
             for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.clone()) {
+                let spk = {
+                    psbt_input.witness_utxo.clone().map_or(
+                        psbt_input.non_witness_utxo.clone().map(|tx| {
+                            tx.tx_out(txin.previous_output.vout as usize)
+                                .expect("should be in range")
+                                .script_pubkey
+                                .clone()
+                        }),
+                        |txout| Some(txout.script_pubkey),
+                    )
+                };
+                let Some(spk) = spk else {
+                    bail!("Cannot create silentpayemnt output without knowing the script pubkey of the input");
+                };
+
+                let mut derivation_path = None;
+                if spk.is_p2wsh()
+                    || (!spk.is_witness_program() && !spk.is_p2pkh() && !spk.is_p2sh())
+                {
+                    // No key of such an input takes part in the derivation, but its outpoint does
+                    derivation_path = Some(DerivationPath::master());
+                }
                 for (fingerprint, path) in psbt_input
                     .bip32_derivation
                     .values()
                     .chain(psbt_input.tap_key_origins.values().map(|x| &x.1))
                 {
-                    let spk = {
-                        psbt_input.witness_utxo.clone().map_or(
-                            psbt_input.non_witness_utxo.clone().map(|tx| {
-                                tx.tx_out(txin.previous_output.vout as usize)
-                                    .expect("should be in range")
-                                    .script_pubkey
-                                    .clone()
-                            }),
-                            |txout| Some(txout.script_pubkey),
-                        )
-                    };
-                    if let Some(spk) = spk {
-                        if *fingerprint == master_privkey.fingerprint(&secp) {
-                            outputs_and_derivation_paths
-                                .push((txin.previous_output, (spk, path.clone())));
-                            break;
-                        }
-                    } else {
-                        bail!("Cannot create silentpayemnt output without knowing the script pubkey of the input");
+                    if *fingerprint == master_privkey.fingerprint(&secp)
+                        && is_key_of_spk(&master_privkey, path, &spk)?
+                    {
+                        derivation_path = Some(path.clone());
+                        break;
                     }
                 }
+
+                match derivation_path {
+                    Some(path) => {
+                        outputs_and_derivation_paths.push((txin.previous_output, (spk, path)))
+                    }
+                    // Derived from some of the inputs only, the output could not be found by the
+                    // recipient
+                    None => bail!(
+                        "Cannot create silent payment output without the keys of all the inputs"
+                    ),
+                }
             }
 
             let mut sp_script_pubkeys =
@@ -1090,6 +1109,34 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
     }
 }
 
+/// Whether the key at `path` is the one which takes part in the derivation of silent payment outputs
+/// for inputs with script pubkey `spk`.
+fn is_key_of_spk(
+    master_privkey: &bip32::Xpriv,
+    path: &DerivationPath,
+    spk: &ScriptBuf,
+) -> Result<bool, anyhow::Error> {
+    let secp = Secp256k1::new();
+    let pubkey = CompressedPublicKey(
+        master_privkey
+            .derive_priv(&secp, path)?
+            .private_key
+            .public_key(&secp),
+    );
+    Ok(if spk.is_p2tr() {
+        *spk == ScriptBuf::new_p2tr(&secp, pubkey.into(), None)
+    } else if spk.is_p2wpkh() {
+        *spk == ScriptBuf::new_p2wpkh(&pubkey.wpubkey_hash())
+    } else if spk.is_p2pkh() {
+        *spk == ScriptBuf::new_p2pkh(&pubkey.pubkey_hash())
+    } else if spk.is_p2sh() {
+        let redeem_script = ScriptBuf::new_p2wpkh(&pubkey.wpubkey_hash());
+        *spk == ScriptBuf::new_p2sh(&redeem_script.script_hash())
+    } else {
+        false
+    })
+}
+
 fn get_sk_from_sp_descriptor(desc_str: String) -> Result<SecretKey, anyhow::Error> {
     let secp = Secp256k1::signing_only();
     let (descriptor, keymap) = Descriptor::parse_descriptor(&secp, &desc_str)?;
-- 
2.43.0


From 2d1d8714c71853a7d48ac2c7cd8e2915a65d984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 33/46] fix: follow spends by transactions without taproot
 outputs in the v1 cli

---
 cli/v1/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index cec1c80..3064780 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -544,11 +544,14 @@ fn main() -> anyhow::Result<()> {
 
                 let block_id = BlockId { hash, height };
                 for (tx_pos, tx) in txdata.iter().enumerate().skip(1) {
-                    if !tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
+                    // A transaction without taproot outputs cannot pay us, but it can spend
+                    // what we own.
+                    let spends_owned = sp_indexer.spends_owned_spouts(tx);
+                    if !spends_owned && !tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
                         continue;
                     }
                     let tx_graph_stage = sp_indexer.index_tx(tx)?;
-                    if !tx_graph_stage.is_empty() || sp_indexer.spends_owned_spouts(tx) {
+                    if !tx_graph_stage.is_empty() || spends_owned {
                         let txid = tx.compute_txid();
                         db_stage.tx_graph.merge(tx_graph_stage);
                         let anchor = TxPosInBlock {
-- 
2.43.0


From 1477b80df2c55db2c953c25a3c3ed045486e0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 34/46] fix: anchor known transactions confirmed by another
 block in the v1 cli

---
 cli/v1/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 3064780..7dcdd28 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -551,8 +551,11 @@ fn main() -> anyhow::Result<()> {
                         continue;
                     }
                     let tx_graph_stage = sp_indexer.index_tx(tx)?;
-                    if !tx_graph_stage.is_empty() || spends_owned {
-                        let txid = tx.compute_txid();
+                    let txid = tx.compute_txid();
+                    // Nothing is staged for a transaction which was indexed before, yet it may be
+                    // confirmed by another block now.
+                    let pays_us = sp_indexer.indexes.txid_to_shared_secret.contains_key(&txid);
+                    if pays_us || spends_owned {
                         db_stage.tx_graph.merge(tx_graph_stage);
                         let anchor = TxPosInBlock {
                             block,
-- 
2.43.0


From 3749e68b46d4088b9313071eab44b323a2f8e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 35/46] fix: scan the blocks which replace known ones in the v2
 cli

---
 cli/v2/src/main.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 2a31fcd..1557fdd 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -479,11 +479,9 @@ async fn main() -> anyhow::Result<()> {
         }
         Commands::ScanRpc { rpc_args } => {
             let rpc_client = rpc_args.new_client()?;
-            let start_height = if wallet.birthday.height <= wallet.chain().tip().height() {
-                wallet.chain().tip().height()
-            } else {
-                wallet.birthday.height
-            };
+            // The emitter resumes where the wallet's chain and the node's part, which is below the
+            // tip of the wallet after a reorganization
+            let start_height = wallet.birthday.height;
 
             tracing::info!("Synchronizing from block height {}", start_height);
 
-- 
2.43.0


From 3793054ba96ac1a6813d9b22b7725b7dbbe53e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 36/46] fix: fail the v2 cli scan when an input cannot be
 looked up

---
 cli/v2/src/main.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 1557fdd..39be21c 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -253,7 +253,7 @@ async fn main() -> anyhow::Result<()> {
                 bail!("Should provide a txid to request tx or the serialized tx")
             };
 
-            let partial_secret = get_partial_secret(&rpc_client, &tx).expect("will fix later");
+            let partial_secret = get_partial_secret(&rpc_client, &tx)?.expect("will fix later");
             let ecdh_shared_secret =
                 compute_shared_secret(wallet.indexer().scan_sk(), &partial_secret);
             let maybe_label =
@@ -504,14 +504,12 @@ async fn main() -> anyhow::Result<()> {
                 let block = &emission.block;
                 let Block { ref txdata, .. } = block;
 
-                let partial_secrets: HashMap<Txid, PublicKey> = txdata
-                    .iter()
-                    .skip(1)
-                    .filter_map(|tx| {
-                        get_partial_secret(&rpc_client, tx)
-                            .map(|partial_secret| (tx.compute_txid(), partial_secret))
-                    })
-                    .collect();
+                let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
+                for tx in txdata.iter().skip(1) {
+                    if let Some(partial_secret) = get_partial_secret(&rpc_client, tx)? {
+                        partial_secrets.insert(tx.compute_txid(), partial_secret);
+                    }
+                }
 
                 wallet.apply_block_relevant(block, partial_secrets, height);
 
@@ -821,16 +819,15 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
 fn get_partial_secret(
     client: &impl RpcApi,
     tx: &Transaction,
-) -> Option<bitcoin::secp256k1::PublicKey> {
+) -> anyhow::Result<Option<bitcoin::secp256k1::PublicKey>> {
     let mut prevouts = <Vec<TxOut>>::new();
     let outpoint_refs = tx.input.iter().map(|x| x.previous_output);
     for OutPoint { txid, vout } in outpoint_refs {
         let prev_tx = client
-            .get_raw_transaction_info(&txid, None)
-            .ok()
-            .and_then(|tx| tx.transaction().ok())?;
-        let prevout = prev_tx.tx_out(vout as usize).ok()?.clone();
+            .get_raw_transaction_info(&txid, None)?
+            .transaction()?;
+        let prevout = prev_tx.tx_out(vout as usize)?.clone();
         prevouts.push(prevout);
     }
-    compute_tweak_data(tx, &prevouts).ok()
+    Ok(compute_tweak_data(tx, &prevouts).ok())
 }
-- 
2.43.0


From 740442fe93a5a0f5f9422f4a2f664fb8c6a15e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 37/46] fix: pay silent payment codes on signet and testnet4 in
 the v2 cli

---
 cli/v2/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 39be21c..d192e26 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -626,10 +626,16 @@ async fn main() -> anyhow::Result<()> {
 
             let mut sp_recipients: Vec<SilentPaymentCode> = vec![wallet.get_change_address()];
             if let Some(sp_codes) = maybe_sp_codes {
-                for (sp_code, value) in sp_codes {
-                    if sp_code.network != wallet.network() {
+                // codes do not tell the test networks with the same prefix apart
+                let code_network = match wallet.network() {
+                    Network::Testnet4 | Network::Signet => Network::Testnet,
+                    network => network,
+                };
+                for (mut sp_code, value) in sp_codes {
+                    if sp_code.network != code_network {
                         bail!("");
                     }
+                    sp_code.network = wallet.network();
                     let placeholder_script = sp_code.get_placeholder_p2tr_spk();
                     outputs.push(Output::with_script(
                         placeholder_script,
-- 
2.43.0


From 3759b736d101326500d268f1fb4256a3b698ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 38/46] fix: make the change address a recipient only if there
 is change in the v2 cli

---
 cli/v2/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index d192e26..cbf9a22 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -624,7 +624,7 @@ async fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let mut sp_recipients: Vec<SilentPaymentCode> = vec![wallet.get_change_address()];
+            let mut sp_recipients: Vec<SilentPaymentCode> = vec![];
             if let Some(sp_codes) = maybe_sp_codes {
                 // codes do not tell the test networks with the same prefix apart
                 let code_network = match wallet.network() {
@@ -655,6 +655,8 @@ async fn main() -> anyhow::Result<()> {
                 outputs.push(Output::with_script(script, Amount::from_sat(0)));
             }
 
+            let target_outputs = outputs.len();
+
             let (tip_height, tip_time) = wallet.tip_info();
             let longterm_feerate = FeeRate::from_sat_per_vb_unchecked(1);
             let change_placeholder_spk = wallet.get_change_address().get_placeholder_p2tr_spk();
@@ -716,6 +718,11 @@ async fn main() -> anyhow::Result<()> {
             let mut spend_keys = HashMap::<bitcoin::PublicKey, PrivateKey>::new();
             spend_keys.insert(spend_pub, spend_prv);
 
+            // only a change output makes the change address a recipient
+            if psbt.outputs.len() > target_outputs {
+                sp_recipients.push(wallet.get_change_address());
+            }
+
             // replace outputs by real final silentpayment script pubkeys
             derive_sp(&mut psbt, &spend_keys, &sp_recipients, &secp)?;
 
-- 
2.43.0


From 45cc071c93d31ec753f68f6b20e7cc61f59b0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 39/46] fix: end the v2 cli light client scan when the node
 stops

---
 cli/v2/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index cbf9a22..855ae15 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -470,10 +470,13 @@ async fn main() -> anyhow::Result<()> {
                             let checkpoint = wallet.chain().tip().insert(new_tip);
                             wallet.update_chain(checkpoint);
                             tracing::info!("Shutting Down");
-                            requester.shutdown().unwrap();
+                            // nothing to shut down if the node has stopped by itself
+                            let _ = requester.shutdown();
                             break;
                         }
                     }
+                } else {
+                    bail!("The node or the tweak server subscriber stopped during the scan");
                 }
             }
         }
-- 
2.43.0


From 33b41fdecace2738d0e1f250edeb998b84313d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 40/46] fix: fail the v2 cli light client scan if a block
 cannot be obtained

---
 cli/v2/src/main.rs | 65 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 855ae15..058d45b 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -29,6 +29,7 @@ use bdk_sp::{
 use bdk_sp_oracles::{
     bip157::{
         self,
+        error::FetchBlockError,
         tokio::{self, select},
         AddrV2, Builder, Client as KyotoClient, HeaderCheckpoint, IndexedBlock, Info, ServiceFlags,
         TrustedPeer, UnboundedReceiver, Warning,
@@ -431,39 +432,41 @@ async fn main() -> anyhow::Result<()> {
                     match tweak_event {
                         TweakEvent::Matches((hash, spks_tweak_map)) => {
                             tracing::info!("Checking matches...");
-                            if let Ok(rrx) = requester.request_block(hash) {
-                                if let Ok(Ok(IndexedBlock { height, ref block })) = rrx.await {
-                                    let checkpoint =
-                                        wallet.chain().tip().insert(BlockId { height, hash });
-                                    wallet.update_chain(checkpoint);
-
-                                    let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
-                                    for tx in block.txdata.iter() {
-                                        let spks = tx
-                                            .output
-                                            .iter()
-                                            .filter(|txout| txout.script_pubkey.is_p2tr())
-                                            .map(|txout| {
-                                                txout
-                                                    .script_pubkey
-                                                    .to_bytes()
-                                                    .try_into()
-                                                    .expect("p2tr script, should succeed")
-                                            })
-                                            .collect::<HashSet<[u8; 34]>>();
-                                        if let Some(tweak) =
-                                            spks.iter().find_map(|spk| spks_tweak_map.get(spk))
-                                        {
-                                            partial_secrets.insert(tx.compute_txid(), *tweak);
-                                        }
-                                    }
-
-                                    tracing::info!("Block {hash} is relevant, indexing.");
-                                    // if all outputs in transactions in the block are not p2tr
-                                    // outputs, partial secrets is going to be empty
-                                    wallet.apply_block_relevant(block, partial_secrets, height);
+                            let IndexedBlock { height, ref block } =
+                                match requester.get_block(hash).await {
+                                    Ok(indexed_block) => indexed_block,
+                                    // another block took its place in the meantime
+                                    Err(FetchBlockError::UnknownHash) => continue,
+                                    Err(e) => bail!("Unable to get block {hash}: {e}"),
+                                };
+                            let checkpoint = wallet.chain().tip().insert(BlockId { height, hash });
+                            wallet.update_chain(checkpoint);
+
+                            let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
+                            for tx in block.txdata.iter() {
+                                let spks = tx
+                                    .output
+                                    .iter()
+                                    .filter(|txout| txout.script_pubkey.is_p2tr())
+                                    .map(|txout| {
+                                        txout
+                                            .script_pubkey
+                                            .to_bytes()
+                                            .try_into()
+                                            .expect("p2tr script, should succeed")
+                                    })
+                                    .collect::<HashSet<[u8; 34]>>();
+                                if let Some(tweak) =
+                                    spks.iter().find_map(|spk| spks_tweak_map.get(spk))
+                                {
+                                    partial_secrets.insert(tx.compute_txid(), *tweak);
                                 }
                             }
+
+                            tracing::info!("Block {hash} is relevant, indexing.");
+                            // if all outputs in transactions in the block are not p2tr
+                            // outputs, partial secrets is going to be empty
+                            wallet.apply_block_relevant(block, partial_secrets, height);
                         }
                         TweakEvent::Synced(new_tip) => {
                             tracing::info!("Updating to last checkpoint");
-- 
2.43.0


From 2953f946d9f32cc38cbbd4b4513e21fe22656b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 41/46] fix: replace and scan again reorganized blocks in the
 v2 cli light client scan

---
 cli/v2/src/main.rs | 68 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 058d45b..6f66ea5 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -31,8 +31,8 @@ use bdk_sp_oracles::{
         self,
         error::FetchBlockError,
         tokio::{self, select},
-        AddrV2, Builder, Client as KyotoClient, HeaderCheckpoint, IndexedBlock, Info, ServiceFlags,
-        TrustedPeer, UnboundedReceiver, Warning,
+        AddrV2, Builder, Client as KyotoClient, Event, HeaderCheckpoint, IndexedBlock, Info,
+        ServiceFlags, TrustedPeer, UnboundedReceiver, Warning,
     },
     filters::kyoto::{FilterEvent, FilterSubscriber},
     tweaks::blindbit::{BlindbitSubscriber, TweakEvent},
@@ -50,14 +50,16 @@ use indexer::bdk_chain::BlockId;
 use rand::RngCore;
 use serde_json::json;
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
     env,
     net::Ipv4Addr,
     str::FromStr,
-    sync::Mutex,
+    sync::{Arc, Mutex},
     time::{Duration, Instant},
 };
 
+/// Number of blocks below the tip which are scanned again, because they may have been replaced.
+const IMPOSSIBLE_REORG_DEPTH: u32 = 7;
 const DB_MAGIC: &[u8] = b"bdk_example_silentpayments";
 
 /// Delay for printing status to stdout.
@@ -329,21 +331,18 @@ async fn main() -> anyhow::Result<()> {
 
             tracing::info!("Wallet main SP address: {}", wallet.get_address());
 
-            let sync_point = if let (Some(height), Some(hash)) = (height, hash) {
-                HeaderCheckpoint::new(height, hash)
-            } else if wallet.birthday.height <= wallet.chain().tip().height() {
-                let height = wallet.chain().tip().height();
-                let hash = wallet.chain().tip().hash();
-                HeaderCheckpoint::new(height, hash)
+            let sync_height = if let (Some(height), Some(_)) = (height, hash) {
+                height
             } else {
-                HeaderCheckpoint::new(wallet.birthday.height, wallet.birthday.hash)
+                // The last blocks known to the wallet may have been replaced in the meantime
+                let tip_height = wallet.chain().tip().height();
+                wallet
+                    .birthday
+                    .height
+                    .max(tip_height.saturating_sub(IMPOSSIBLE_REORG_DEPTH))
             };
 
-            tracing::info!(
-                "Synchronizing from block {}:{}",
-                sync_point.hash,
-                sync_point.height
-            );
+            tracing::info!("Synchronizing from block height {sync_height}");
 
             // Set up the light client
             let checkpoint = if wallet.network() == Network::Bitcoin {
@@ -394,9 +393,26 @@ async fn main() -> anyhow::Result<()> {
                 requester,
                 info_rx,
                 warn_rx,
-                event_rx,
+                event_rx: mut node_rx,
             } = client;
 
+            // There is a filter for each block: the wallet gets to know which of its blocks have
+            // been replaced
+            let (event_tx, event_rx) = tokio::sync::mpsc::unbounded_channel::<Event>();
+            let block_hashes = Arc::new(Mutex::new(BTreeMap::<u32, BlockHash>::new()));
+            let filter_hashes = Arc::clone(&block_hashes);
+            tokio::task::spawn(async move {
+                while let Some(event) = node_rx.recv().await {
+                    if let Event::IndexedFilter(ref filter) = event {
+                        let mut filter_hashes = filter_hashes.lock().unwrap();
+                        filter_hashes.insert(filter.height(), filter.block_hash());
+                    }
+                    if event_tx.send(event).is_err() {
+                        break;
+                    }
+                }
+            });
+
             let (mut blindbit_subscriber, db_buffer) = BlindbitSubscriber::new(
                 wallet.unspent_spks(),
                 wallet.indexer().clone(),
@@ -407,7 +423,7 @@ async fn main() -> anyhow::Result<()> {
             .unwrap();
 
             let mut filter_subscriber =
-                FilterSubscriber::new(db_buffer, event_rx, changes_tx, sync_point.height);
+                FilterSubscriber::new(db_buffer, event_rx, changes_tx, sync_height);
 
             tracing::info!("Starting the node...");
             tokio::task::spawn(async move {
@@ -470,8 +486,20 @@ async fn main() -> anyhow::Result<()> {
                         }
                         TweakEvent::Synced(new_tip) => {
                             tracing::info!("Updating to last checkpoint");
-                            let checkpoint = wallet.chain().tip().insert(new_tip);
-                            wallet.update_chain(checkpoint);
+                            let block_hashes = block_hashes.lock().unwrap();
+                            let known_heights = wallet
+                                .chain()
+                                .tip()
+                                .iter()
+                                .map(|checkpoint| checkpoint.height())
+                                .collect::<BTreeSet<u32>>();
+                            let mut checkpoint = wallet.chain().tip();
+                            for height in known_heights {
+                                if let Some(hash) = block_hashes.get(&height).copied() {
+                                    checkpoint = checkpoint.insert(BlockId { height, hash });
+                                }
+                            }
+                            wallet.update_chain(checkpoint.insert(new_tip));
                             tracing::info!("Shutting Down");
                             // nothing to shut down if the node has stopped by itself
                             let _ = requester.shutdown();
-- 
2.43.0


From a99cac70b20518313e1909b1f64b39ec2f67cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 42/46] fix: watch outputs whose spend may be replaced in the
 v2 cli light client scan

---
 cli/v2/src/main.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 6f66ea5..e432252 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -46,7 +46,7 @@ use bdk_sp_wallet::{
     ChangeSet, SpWallet,
 };
 use clap::{self, ArgGroup, Args, Parser, Subcommand};
-use indexer::bdk_chain::BlockId;
+use indexer::bdk_chain::{BlockId, CanonicalizationParams, ChainPosition};
 use rand::RngCore;
 use serde_json::json;
 use std::{
@@ -413,8 +413,37 @@ async fn main() -> anyhow::Result<()> {
                 }
             });
 
+            // A spend known to the wallet which isn't confirmed below the scanned blocks may have
+            // been replaced: the spent output has to be watched as well
+            let mut watched_spks = wallet.unspent_spks();
+            watched_spks.extend(
+                wallet
+                    .graph()
+                    .filter_chain_txouts(
+                        wallet.chain(),
+                        wallet.chain().tip().block_id(),
+                        CanonicalizationParams::default(),
+                        wallet
+                            .indexer()
+                            .index()
+                            .by_xonly()
+                            .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                    )
+                    .filter(|(_, full_txout)| match &full_txout.spent_by {
+                        Some((ChainPosition::Confirmed { anchor, .. }, _)) => {
+                            anchor.block_id.height >= sync_height
+                        }
+                        Some((ChainPosition::Unconfirmed { .. }, _)) => true,
+                        None => false,
+                    })
+                    .map(|(_, full_txout)| {
+                        <[u8; 34]>::try_from(full_txout.txout.script_pubkey.into_bytes())
+                            .expect("p2tr script, should succeed")
+                    }),
+            );
+
             let (mut blindbit_subscriber, db_buffer) = BlindbitSubscriber::new(
-                wallet.unspent_spks(),
+                watched_spks,
                 wallet.indexer().clone(),
                 tweak_server_url,
                 changes_rx,
-- 
2.43.0


From 9ad19f8e4adc70e3ab07be636c7854df56c7628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 43/46] fix: sign with the sighash type the input asks for

---
 silentpayments/src/send/psbt/sign.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index ad85a1e..ae47521 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -4,7 +4,7 @@ use bitcoin::{
     secp256k1::{Message, PublicKey, Scalar, Signing},
     sighash::{Prevouts, SighashCache},
     taproot::Signature,
-    Psbt, TapSighashType, TxOut,
+    Psbt, TxOut,
 };
 
 pub const SPEND_PK_SUBTYPE: u8 = 0x01;
@@ -87,14 +87,18 @@ where
                 if psbt.inputs[i].tap_key_sig.is_none()
                     && sk.x_only_public_key(secp).0.serialize() == output_key.as_slice()
                 {
-                    let sighash_type = TapSighashType::Default;
-                    let sighash = cache
-                        .taproot_key_spend_signature_hash(
-                            i,
-                            &Prevouts::All(&prevouts),
-                            sighash_type,
-                        )
-                        .expect("failed to construct sighash");
+                    // Neither an invalid sighash type nor one without an output to sign for can be
+                    // served
+                    let Ok(sighash_type) = psbt.inputs[i].taproot_hash_ty() else {
+                        continue;
+                    };
+                    let Ok(sighash) = cache.taproot_key_spend_signature_hash(
+                        i,
+                        &Prevouts::All(&prevouts),
+                        sighash_type,
+                    ) else {
+                        continue;
+                    };
 
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
-- 
2.43.0


From 8d75cfb4a0f172ecc2ed17c803dab1b55e8fb06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 44/46] fix: refuse amounts beyond the money supply in the v1
 cli

---
 cli/v1/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 7dcdd28..b0e0950 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -213,6 +213,7 @@ pub enum Commands {
     },
     NewPsbt {
         /// Amount to send in satoshis
+        #[clap(value_parser = clap::value_parser!(u64).range(..=Amount::MAX_MONEY.to_sat()))]
         value: u64,
         /// Recipient address
         address: Option<Address<NetworkUnchecked>>,
-- 
2.43.0


From 07c1a6175316b1c9e056b0c15185412b918cbbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 45/46] fix: refuse amounts beyond the money supply and
 overflowing fee rates in the v2 cli

---
 cli/v2/src/main.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index e432252..65f6db9 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -67,6 +67,12 @@ const STDOUT_PRINT_DELAY: Duration = Duration::from_secs(6);
 /// Delay for committing to persistence.
 const DB_COMMIT_DELAY: Duration = Duration::from_secs(60);
 
+/// Parses an amount in satoshis, which cannot be more than there will ever be.
+fn parse_value(s: &str) -> Option<u64> {
+    let value = s.trim().parse::<u64>().ok()?;
+    (value <= Amount::MAX_MONEY.to_sat()).then_some(value)
+}
+
 fn parse_recipients(s: &str) -> Result<(Address<NetworkUnchecked>, u64), String> {
     let parts: Vec<&str> = s.split(':').collect();
     if parts.len() != 2 {
@@ -76,10 +82,8 @@ fn parse_recipients(s: &str) -> Result<(Address<NetworkUnchecked>, u64), String>
     let value_0 = parts[0].trim();
     let address = Address::<NetworkUnchecked>::from_str(value_0)
         .map_err(|_| format!("Invalid address: {}", value_0))?;
-    let value = parts[1]
-        .trim()
-        .parse::<u64>()
-        .map_err(|_| format!("Invalid number '{}' for key '{}'", parts[1], value_0))?;
+    let value = parse_value(parts[1])
+        .ok_or_else(|| format!("Invalid number '{}' for key '{}'", parts[1], value_0))?;
     Ok((address, value))
 }
 
@@ -93,10 +97,8 @@ fn parse_sp_recipients(s: &str) -> Result<(SilentPaymentCode, u64), String> {
     let key = SilentPaymentCode::try_from(value_0)
         .map_err(|_| format!("Invalid silent payment address: {}", value_0))?;
 
-    let value = parts[1]
-        .trim()
-        .parse::<u64>()
-        .map_err(|_| format!("Invalid number '{}' for key '{}'", parts[1], key))?;
+    let value = parse_value(parts[1])
+        .ok_or_else(|| format!("Invalid number '{}' for key '{}'", parts[1], key))?;
 
     Ok((key, value))
 }
@@ -674,6 +676,7 @@ async fn main() -> anyhow::Result<()> {
             data,
         } => {
             let secp = Secp256k1::new();
+            let fee_rate = FeeRate::from_sat_per_vb(fee_rate).context("fee rate is too high")?;
             let mut outputs = vec![];
             if let Some(addresses) = maybe_addresses {
                 for (address, value) in addresses {
@@ -731,7 +734,7 @@ async fn main() -> anyhow::Result<()> {
                 .into_selection(
                     selection_algorithm_lowest_fee_bnb(longterm_feerate, 100_000),
                     SelectorParams::new(
-                        bdk_tx::FeeStrategy::FeeRate(FeeRate::from_sat_per_vb_unchecked(fee_rate)),
+                        bdk_tx::FeeStrategy::FeeRate(fee_rate),
                         outputs,
                         bdk_tx::ScriptSource::from_script(
                             wallet.get_change_address().get_placeholder_p2tr_spk(),
-- 
2.43.0


From f68233ebd2d7e70c1079f42ac0c9c003e16edd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 46/46] fix: serve codes which share their keys, and so their
 placeholder, together

---
 silentpayments/src/send/psbt/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 6fb9d79..3a9ae4a 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -569,12 +569,19 @@ fn update_outputs(
         map
     };
 
-    // Replace the outputs only after all of them have been checked
-    let mut replacements = <Vec<(usize, ScriptBuf)>>::new();
+    // Codes with the same keys share their placeholder, whatever their version and network
+    let mut pks_by_placeholder = <BTreeMap<ScriptBuf, Vec<XOnlyPublicKey>>>::new();
     for (sp_code, x_only_pks) in silent_payments.iter() {
-        let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
+        pks_by_placeholder
+            .entry(sp_code.get_placeholder_p2tr_spk())
+            .or_default()
+            .extend(x_only_pks);
+    }
 
-        if let Some(indexes) = placeholder_spk_to_idx.get(&placeholder_spk) {
+    // Replace the outputs only after all of them have been checked
+    let mut replacements = <Vec<(usize, ScriptBuf)>>::new();
+    for (placeholder_spk, x_only_pks) in pks_by_placeholder.iter() {
+        if let Some(indexes) = placeholder_spk_to_idx.get(placeholder_spk) {
             match indexes.len().cmp(&x_only_pks.len()) {
                 Ordering::Greater => return Err(SpSendError::MissingDerivations),
                 Ordering::Less => return Err(SpSendError::MissingOutputs),
-- 
2.43.0

