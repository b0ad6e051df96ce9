From 2a6966ea1f1a78fb5a7a0ac424cacd93fd78ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 01/24] fix: reject transactions with unknown optional data
 flags

---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d5b5d6f..d0bfe27 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1101,6 +1101,8 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                 raise ValueError('Superfluous witness record')
 
             return cls(vin, vout, nLockTime, nVersion, wit)
+        elif flagbyte != 0:
+            raise ValueError('Unknown transaction optional data')
         else:
             vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
             vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
-- 
2.43.0


From fcda877825e5103b0d7558555a0a16268484d761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:50 +0000
Subject: [PATCH 02/24] fix: serialize complete witness when only one of its
 vectors is populated

---
 elementstx/core/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d0bfe27..e82f864 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1123,7 +1123,15 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
             VectorSerializer.stream_serialize(self.vout, f)
             # Note: nLockTime goes before witness in Elements transactions
             f.write(struct.pack(b"<I", self.nLockTime))
-            self.wit.stream_serialize(f)
+            # Both vectors of witnesses are expected to be complete when
+            # the transaction is deserialized, null witnesses are written
+            # in place of the vector that is empty
+            for txinwit in (self.wit.vtxinwit
+                            or [CElementsTxInWitness()] * len(self.vin)):
+                txinwit.stream_serialize(f)
+            for txoutwit in (self.wit.vtxoutwit
+                             or [CElementsTxOutWitness()] * len(self.vout)):
+                txoutwit.stream_serialize(f)
         else:
             if not for_sighash:
                 f.write(b'\x00')  # Flag is needed in Elements
-- 
2.43.0


From adab121b01684d75edda3e37256282f8cc5593bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 03/24] fix: copy the data of proofs in CElementsTxOutWitness

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index e82f864..156e668 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -551,8 +551,8 @@ class CElementsTxOutWitness(CTxOutWitness, CoreElementsClass):
                  rangeproof: Union[bytes, bytearray] = b''):
         ensure_isinstance(surjectionproof, (bytes, bytearray), 'surjectionproof')
         ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
-        object.__setattr__(self, 'surjectionproof', surjectionproof)
-        object.__setattr__(self, 'rangeproof', rangeproof)
+        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
+        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
 
     @no_bool_use_as_property
     def is_null(self) -> bool:
-- 
2.43.0


From 4bcfe02bbb86cd16ae247bd9da8fcd83f79b98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 04/24] fix: include the length of scriptPubKey in taproot
 sighash with ANYONECANPAY

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b94d905..c1b5d1a 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -338,7 +338,7 @@ def ElementsSignatureHashSchnorr(
         f.write(txTo.vin[inIdx].prevout.serialize())
         f.write(spent_outputs[inIdx].nAsset.serialize())
         f.write(spent_outputs[inIdx].nValue.serialize())
-        f.write(spent_outputs[inIdx].scriptPubKey)
+        BytesSerializer.stream_serialize(spent_outputs[inIdx].scriptPubKey, f)
         f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
         if txTo.vin[inIdx].assetIssuance.is_null():
             f.write(b'\x00')
-- 
2.43.0


From 44835055e6277dbf0c3096dbef09136bdaa3c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 05/24] fix: include the lengths of issuance rangeproofs in
 taproot sighash with ANYONECANPAY

---
 elementstx/core/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index c1b5d1a..49744f4 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -348,8 +348,8 @@ def ElementsSignatureHashSchnorr(
             inwit = txTo.wit.vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
-                    inwit.issuanceAmountRangeproof
-                    + inwit.inflationKeysRangeproof
+                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
+                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                 ).digest()
             )
     else:
-- 
2.43.0


From c0af02c5a1d6fdf1e4f9e8d99a98bc98831b38b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 06/24] fix: do not prefix the annex hash with its length in
 taproot sighash

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 49744f4..f1287c8 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -356,7 +356,7 @@ def ElementsSignatureHashSchnorr(
         f.write(struct.pack('<I', inIdx))
 
     if annex_hash is not None:
-        BytesSerializer.stream_serialize(annex_hash, f)
+        f.write(annex_hash)
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-- 
2.43.0


From a57db21b797c9882eb359128aed84543d0ebefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 07/24] fix: range check for the output index in taproot
 sighash with SINGLE

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index f1287c8..def1879 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -360,7 +360,7 @@ def ElementsSignatureHashSchnorr(
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-        if outIdx > len(txTo.vout):
+        if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
         f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
-- 
2.43.0


From dbedd03b4645e5b78e155b0a47a2160c009d5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 08/24] fix: treat absent witnesses as null in taproot sighash

---
 elementstx/core/script.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index def1879..29c91ed 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -261,6 +261,18 @@ def ElementsSignatureHashSchnorr(
     f.write(struct.pack("<i", txTo.nVersion))
     f.write(struct.pack("<I", txTo.nLockTime))
 
+    # The witness vectors may be shorter than the vectors of inputs and outputs,
+    # the witnesses that are not there are null
+    def get_inwit(i: int) -> 'elementstx.core.CElementsTxInWitness':
+        if i < len(txTo.wit.vtxinwit):
+            return txTo.wit.vtxinwit[i]
+        return elementstx.core.CElementsTxInWitness()
+
+    def get_outwit(i: int) -> 'elementstx.core.CElementsTxOutWitness':
+        if i < len(txTo.wit.vtxoutwit):
+            return txTo.wit.vtxoutwit[i]
+        return elementstx.core.CElementsTxOutWitness()
+
     def get_outpoint_flag(txin: 'elementstx.core.CElementsTxIn') -> bytes:
         opf = 0
 
@@ -295,7 +307,7 @@ def ElementsSignatureHashSchnorr(
             else:
                 issuances_hashobj.update(txin.assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inp_i]
+            inwit = get_inwit(inp_i)
             issuance_rangeproof_hashobj.update(
                 BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
             issuance_rangeproof_hashobj.update(
@@ -320,8 +332,7 @@ def ElementsSignatureHashSchnorr(
 
         for outp_i, txout in enumerate(txTo.vout):
             outputs_hashobj.update(txout.serialize())
-            output_witnesses_hashobj.update(
-                txTo.wit.vtxoutwit[outp_i].serialize())
+            output_witnesses_hashobj.update(get_outwit(outp_i).serialize())
 
         f.write(outputs_hashobj.digest())
         f.write(output_witnesses_hashobj.digest())
@@ -345,7 +356,7 @@ def ElementsSignatureHashSchnorr(
         else:
             f.write(txTo.vin[inIdx].assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inIdx]
+            inwit = get_inwit(inIdx)
             f.write(
                 hashlib.sha256(
                     BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
@@ -363,7 +374,7 @@ def ElementsSignatureHashSchnorr(
         if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
-        f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
+        f.write(hashlib.sha256(get_outwit(outIdx).serialize()).digest())
 
     if sigversion == SIGVERSION_TAPSCRIPT:
         if tapleaf_hash is None:
-- 
2.43.0


From ca47ea5d2672db26e457b5d375815eb3bb32228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 09/24] fix: segwit sighash for nLockTime above 0x7fffffff

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 29c91ed..8aadf17 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -183,7 +183,7 @@ def RawElementsSignatureHash(
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
     f.write(hashOutputs)
-    f.write(struct.pack("<i", txTo.nLockTime))
+    f.write(struct.pack("<I", txTo.nLockTime))
     f.write(struct.pack("<i", hashtype))
 
     hash = Hash(f.getvalue())
-- 
2.43.0


From f4dda15ca819abe9013f002dd043b7d2c4c174c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:07 +0000
Subject: [PATCH 10/24] fix: serialize null amount as a null value in segwit
 sighash

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 8aadf17..7d4d2db 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -178,7 +178,7 @@ def RawElementsSignatureHash(
     f.write(hashIssuance)
     txTo.vin[inIdx].prevout.stream_serialize(f)
     BytesSerializer.stream_serialize(script, f)
-    f.write(amount.commitment)
+    amount.stream_serialize(f)
     f.write(struct.pack("<I", txTo.vin[inIdx].nSequence))
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
-- 
2.43.0


From 741f453bc3da89cd31b6ffe906a2612e325ce4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 11/24] fix: report failure on blinding a reissuance that has
 non-null nInflationKeys

---
 elementstx/core/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 156e668..b7dd7c5 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1369,6 +1369,11 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
             else:
+                # Re-issuance only has one pseudo-input maximum
+                if not issuance.nInflationKeys.is_null():
+                    return BlindingFailure(
+                        'input %d is a reissuance, but nInflationKeys '
+                        'is not null' % i)
                 asset = calculate_asset(issuance.assetEntropy)
 
             if not issuance.nAmount.is_null():
-- 
2.43.0


From 820f49792aa2f2d952dab02850c2299ba1562022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 12/24] fix: include the input index in the messages on
 rangeproofs already in place

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index b7dd7c5..4eafabd 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1476,7 +1476,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 else:
                     return BlindingFailure(
                         'blind_issuance_asset_keys is specified for input %d, '
-                        'but issuanceAmountRangeproof is already in place')
+                        'but issuanceAmountRangeproof is already in place' % nIn)
 
             if len(blind_issuance_token_keys) > nIn and blind_issuance_token_keys[nIn] is not None:
                 if not issuance.nInflationKeys.is_explicit():
@@ -1489,7 +1489,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 else:
                     return BlindingFailure(
                         'blind_issuance_token_keys is specified for input %d, '
-                        'but inflationKeysRangeproof is already in place')
+                        'but inflationKeysRangeproof is already in place' % nIn)
 
     for nOut, out_pub in enumerate(output_pubkeys):
         if out_pub.is_nonempty():
-- 
2.43.0


From 0fd19d20623c885386aaf5fcd86e04ac8d1905bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 13/24] fix: check the result of serialization of surjection
 proof

---
 elementstx/core/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 4eafabd..e8a5147 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1981,8 +1981,13 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
             secp256k1.ctx.blind, proof)
         output_len = ctypes.c_size_t(expected_output_len)
         serialized_proof = ctypes.create_string_buffer(output_len.value)
-        secp256k1.lib.secp256k1_surjectionproof_serialize(
+        ret = secp256k1.lib.secp256k1_surjectionproof_serialize(
             secp256k1.ctx.blind, serialized_proof, ctypes.byref(output_len), proof)
+
+        if 1 != ret:
+            assert ret == 0
+            raise RuntimeError('secp256k1_surjectionproof_serialize returned failure')
+
         assert output_len.value == expected_output_len
     finally:
         secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
-- 
2.43.0


From 274e44077694db5f514819d57fc4a7fe35bb93aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 14/24] fix: account for the flag byte of Elements transaction
 in the virtual size

---
 elementstx/core/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index e8a5147..4e97696 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1140,6 +1140,18 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
             VectorSerializer.stream_serialize(self.vout, f)
             f.write(struct.pack(b"<I", self.nLockTime))
 
+    def get_virtual_size(self) -> int:
+        """Calculate virtual size for the transaction.
+        The flag byte is always present in Elements transaction, and
+        is counted with the weight of non-witness data.
+
+        Note that calculation does not take sigops into account."""
+        stripped_size = len(self.serialize(include_witness=False))
+        total_size = len(self.serialize())
+        scale_factor = CoreCoinParams.WITNESS_SCALE_FACTOR
+        weight = stripped_size * (scale_factor-1) + total_size
+        return (weight + scale_factor-1) // scale_factor
+
     @property
     def num_issuances(self) -> int:
         numIssuances = 0
-- 
2.43.0


From 7c42163c65717e21445325445c4457554132a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 15/24] fix: complete the vector of input witnesses when
 blinding issuances

---
 elementstx/core/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 4e97696..d6fb0f8 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1581,7 +1581,8 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     # though it is possible. No privacy gained here, incompatible with secp api
                     return blinding_result()
 
-                while len(tx.wit.vtxinwit) <= nIn:
+                # Make sure that number of txin witnesses is correct
+                while len(tx.wit.vtxinwit) < len(tx.vin):
                     tx.wit.vtxinwit.append(CElementsMutableTxInWitness())
 
                 txinwit = tx.wit.vtxinwit[nIn]
-- 
2.43.0


From 8283a3c7efdc9c2666755bbea5f2cfb423629c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 16/24] fix: report failure on issuance blinding keys for
 inputs without issuance

---
 elementstx/core/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d6fb0f8..cc7a2c6 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1474,7 +1474,18 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
 
         # Count number of issuance pseudo-inputs to blind
         issuance = tx.vin[nIn].assetIssuance
-        if not issuance.is_null():
+        if issuance.is_null():
+            if (len(blind_issuance_asset_keys) > nIn
+                    and blind_issuance_asset_keys[nIn] is not None):
+                return BlindingFailure(
+                    'blind_issuance_asset_keys is specified for input %d, '
+                    'but this input has no issuance' % nIn)
+            if (len(blind_issuance_token_keys) > nIn
+                    and blind_issuance_token_keys[nIn] is not None):
+                return BlindingFailure(
+                    'blind_issuance_token_keys is specified for input %d, '
+                    'but this input has no issuance' % nIn)
+        else:
             # Marked for blinding
             if len(blind_issuance_asset_keys) > nIn and blind_issuance_asset_keys[nIn] is not None:
                 if not issuance.nAmount.is_explicit():
-- 
2.43.0


From 568e80b11d92f37c1f20b2b3f6f41f8078970d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 17/24] fix: check the type of issuance blinding keys that
 evaluate to false

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index cc7a2c6..3173266 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1232,12 +1232,12 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
     if not (len(tx.vin) >= len(blind_issuance_asset_keys)):
         raise ValueError('unexpected extra blind_issuance_asset_keys')
     for i, k in enumerate(blind_issuance_asset_keys):
-        if k:
+        if k is not None:
             ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_asset_keys')
     if not len(tx.vin) >= len(blind_issuance_token_keys):
         raise ValueError('unexpected extra blind_issuance_token_keys')
     for i, k in enumerate(blind_issuance_token_keys):
-        if k:
+        if k is not None:
             ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_token_keys')
 
     if len(tx.vin) != len(input_descriptors):
-- 
2.43.0


From e1f69e98acd5a66ffc8e35261876b40bdc62ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 18/24] fix: accept rangeproof given as bytearray on unblinding

---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 3173266..045d86b 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2107,7 +2107,7 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
         msg, ctypes.byref(msg_size),
         nonce,
         ctypes.byref(min_value), ctypes.byref(max_value),
-        commit, rangeproof, len(rangeproof),
+        commit, bytes(rangeproof), len(rangeproof),
         committedScript or None, len(committedScript),
         observed_gen)
 
-- 
2.43.0


From 9dd268e962f1cc80d0182a91088c7de54ff7c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 19/24] fix: accept auxiliary generators given as bytearray

---
 elementstx/core/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 045d86b..033955e 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1338,7 +1338,8 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 # Parse generator here
                 asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                 result = secp256k1.lib.secp256k1_generator_parse(
-                    secp256k1.ctx.blind, asset_generator, auxiliary_generators[i])
+                    secp256k1.ctx.blind, asset_generator,
+                    bytes(auxiliary_generators[i]))
                 if result != 1:
                     assert result == 0
                     return BlindingFailure(
@@ -1424,7 +1425,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
             ret = secp256k1.lib.secp256k1_generator_parse(
                 secp256k1.ctx.blind,
-                gen_buf, auxiliary_generators[len(tx.vin)+n])
+                gen_buf, bytes(ag))
             if ret != 1:
                 assert ret == 0
                 return BlindingFailure(
-- 
2.43.0


From 6acb3241121c7521a4ed272fa1640a0e908b2aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 20/24] fix: include the input index in the messages on blinded
 issuances

---
 elementstx/core/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 033955e..f46f87b 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1369,10 +1369,12 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
         if not issuance.is_null():
             if issuance.nAmount.is_commitment():
                 return BlindingFailure(
-                    'issuance is not empty, but nAmount is a commitment')
+                    'issuance for input %d is not empty, but nAmount '
+                    'is a commitment' % i)
             if issuance.nInflationKeys.is_commitment():
                 return BlindingFailure(
-                    'issuance is not empty, but nInflationKeys is a commitment')
+                    'issuance for input %d is not empty, but nInflationKeys '
+                    'is a commitment' % i)
 
             # New Issuance
             if issuance.assetBlindingNonce.is_null():
-- 
2.43.0


From 7a9e1e10a3220a8725d9703dc1dfb60300f61075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 21/24] fix: check the types of custom range proof parameters
 before changing the transaction

---
 elementstx/core/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index f46f87b..24baeb3 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1252,6 +1252,11 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                           f'asset of input descriptor {i}')
         ensure_isinstance(idesc.amount, int, f'amount of input descriptor {i}')
 
+    if custom_ct_exponent is not None:
+        ensure_isinstance(custom_ct_exponent, int, 'custom_ct_exponent')
+    if custom_ct_bits is not None:
+        ensure_isinstance(custom_ct_bits, int, 'custom_ct_bits')
+
     output_blinding_factors: List[Optional[Uint256]] = \
         [None for _ in range(len(tx.vout))]
     output_asset_blinding_factors: List[Optional[Uint256]] = \
-- 
2.43.0


From 38057f4ab0530b1d07644df428d274fb6ed20073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 22/24] fix: give OP_DETERMINISTICRANDOM the value it has in
 Elements

It was defined as 0xc1, which is OP_CHECKSIGFROMSTACK.
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 7d4d2db..81ef8ad 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -43,7 +43,7 @@ import elementstx.core
 # to have CBitcoinScriptOp and CElementsScriptOp, but
 # this is too heavy for this small issue. These opcodes are useable as-is,
 # the only proble is that they will be shown as UNKNOWN for repr(script).
-OP_DETERMINISTICRANDOM = CScriptOp(0xc1)
+OP_DETERMINISTICRANDOM = CScriptOp(0xc0)
 OP_CHECKSIGFROMSTACK = CScriptOp(0xc1)
 OP_CHECKSIGFROMSTACKVERIFY = CScriptOp(0xc2)
 
-- 
2.43.0


From d4296c9225ecd8da04f29caff16d0dbccb88fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 23/24] fix: return the redeem script from to_redeemScript() of
 confidential addresses

It returned the scriptPubKey.
---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index d126076..9850a59 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -158,7 +158,7 @@ class CCoinConfidentialAddress(CCoinAddress):
         return self.to_unconfidential().to_scriptPubKey()
 
     def to_redeemScript(self) -> CScript:
-        return self.to_unconfidential().to_scriptPubKey()
+        return self.to_unconfidential().to_redeemScript()
 
     def from_scriptPubKey(self) -> None:  # type: ignore
         raise CCoinAddressError(
-- 
2.43.0


From 38e5b37baddde220ba52a76c1da31c244e8d464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 24/24] fix: restore the name of CAsset.to_commitment()

It was mangled to to_comm_secp256k1itment by a mass replacement, the
examples call to_commitment().
---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 24baeb3..e41e514 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -308,7 +308,7 @@ class CAsset(Uint256):
     def __repr__(self) -> str:
         return "{}('{}')".format(self.__class__.__name__, self.to_hex())
 
-    def to_comm_secp256k1itment(self) -> bytes:
+    def to_commitment(self) -> bytes:
         secp256k1 = get_secp256k1()
         gen = ctypes.create_string_buffer(64)
         res = secp256k1.lib.secp256k1_generator_generate(
-- 
2.43.0

