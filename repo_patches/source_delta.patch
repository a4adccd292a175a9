From 39c4712809afba849b56957653357592eb836a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:34 +0000
Subject: [PATCH 01/28] fix: reject unknown flag byte when deserializing
 transactions

---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d5b5d6f..8c076be 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1102,6 +1102,9 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
 
             return cls(vin, vout, nLockTime, nVersion, wit)
         else:
+            if flagbyte != 0:
+                raise SerializationError(
+                    'Unknown transaction optional data')
             vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
             vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
             nLockTime = struct.unpack(b"<I", ser_read(f, 4))[0]
-- 
2.43.0


From 43dcec97ed89fe3e914ccbd9a820b2a3733ea8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 02/28] fix: write empty witness records for inputs and outputs
 that have none

---
 elementstx/core/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 8c076be..2e1af6e 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1116,15 +1116,24 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                          **kwargs: Any) -> None:
         f.write(struct.pack(b"<i", self.nVersion))
         if include_witness and not self.wit.is_null():
-            assert len(self.wit.vtxinwit) == 0 or len(self.wit.vtxinwit) == len(self.vin)
-            assert len(self.wit.vtxoutwit) == 0 or len(self.wit.vtxoutwit) == len(self.vout)
+            num_missing_in = len(self.vin) - len(self.wit.vtxinwit)
+            num_missing_out = len(self.vout) - len(self.wit.vtxoutwit)
+            assert num_missing_in >= 0
+            assert num_missing_out >= 0
+            wit = self.wit
+            if num_missing_in or num_missing_out:
+                # The encoding has a witness record for each input and
+                # each output, absent records are encoded as empty ones
+                wit = CElementsTxWitness(
+                    (*wit.vtxinwit, *([CElementsTxInWitness()] * num_missing_in)),
+                    (*wit.vtxoutwit, *([CElementsTxOutWitness()] * num_missing_out)))
             f.write(b'\x01')  # Flag
             # no check of for_sighash, because standard sighash calls this without witnesses.
             VectorSerializer.stream_serialize(self.vin, f)
             VectorSerializer.stream_serialize(self.vout, f)
             # Note: nLockTime goes before witness in Elements transactions
             f.write(struct.pack(b"<I", self.nLockTime))
-            self.wit.stream_serialize(f)
+            wit.stream_serialize(f)
         else:
             if not for_sighash:
                 f.write(b'\x00')  # Flag is needed in Elements
-- 
2.43.0


From 9999174e54729e2611652e932011c24dac10f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 03/28] fix: copy proofs given to output witness as mutable
 buffers

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 2e1af6e..5998098 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -551,8 +551,8 @@ class CElementsTxOutWitness(CTxOutWitness, CoreElementsClass):
                  rangeproof: Union[bytes, bytearray] = b''):
         ensure_isinstance(surjectionproof, (bytes, bytearray), 'surjectionproof')
         ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
-        object.__setattr__(self, 'surjectionproof', surjectionproof)
-        object.__setattr__(self, 'rangeproof', rangeproof)
+        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
+        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
 
     @no_bool_use_as_property
     def is_null(self) -> bool:
-- 
2.43.0


From f77b079a4ef67b7e05bc1b19dd0111d3051b3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:07 +0000
Subject: [PATCH 04/28] fix: segwit v0 signature hash for lock times above
 2^31-1

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b94d905..4202173 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -183,7 +183,7 @@ def RawElementsSignatureHash(
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
     f.write(hashOutputs)
-    f.write(struct.pack("<i", txTo.nLockTime))
+    f.write(struct.pack("<I", txTo.nLockTime))
     f.write(struct.pack("<i", hashtype))
 
     hash = Hash(f.getvalue())
-- 
2.43.0


From f032b09c4d48e4586b4322acf5504375990c5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 05/28] fix: legacy SIGHASH_SINGLE when non-Elements chain
 parameters are selected

---
 elementstx/core/script.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 4202173..6c81827 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -16,7 +16,9 @@ import hashlib
 from io import BytesIO
 from typing import Optional, Tuple, Sequence
 
-from bitcointx.util import no_bool_use_as_property, ensure_isinstance
+from bitcointx.util import (
+    no_bool_use_as_property, ensure_isinstance, activate_class_dispatcher
+)
 from bitcointx.core import Hash
 from bitcointx.core.key import CKey, CKeyBase
 from bitcointx.core.script import (
@@ -133,8 +135,15 @@ def RawElementsSignatureHash(
         # revert to standard bitcoin signature hash
         # amount is not used in SIGVERSION_BASE sighash,
         # so we specify invalid value.
-        return RawBitcoinSignatureHash(script, txTo, inIdx, hashtype,
-                                       amount=None, sigversion=sigversion)
+        # The function creates outputs via the generic class, they have to be
+        # Elements outputs regardless of the currently chosen chain parameters.
+        prev_dispatcher = activate_class_dispatcher(
+            elementstx.core.CoreElementsClassDispatcher)
+        try:
+            return RawBitcoinSignatureHash(script, txTo, inIdx, hashtype,
+                                           amount=None, sigversion=sigversion)
+        finally:
+            activate_class_dispatcher(prev_dispatcher)
 
     ensure_isinstance(amount, elementstx.core.CConfidentialValue, 'amount')
     assert isinstance(amount, elementstx.core.CConfidentialValue)
-- 
2.43.0


From a65d7057da5ec57a12d7880bc99c611d846e0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 06/28] fix: blind_transaction() when non-Elements chain
 parameters are selected

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 5998098..d6f8376 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1877,13 +1877,13 @@ def generate_rangeproof(in_blinds: List[Uint256], nonce: Uint256,
         ensure_isinstance(custom_ct_exponent, int, 'custom_ct_exponent')
         ct_exponent = custom_ct_exponent
     else:
-        ct_exponent = CoreCoinParams.CT_EXPONENT
+        ct_exponent = CoreElementsParams.CT_EXPONENT
 
     if custom_ct_bits is not None:
         ensure_isinstance(custom_ct_bits, int, 'custom_ct_bits')
         ct_bits = custom_ct_bits
     else:
-        ct_bits = CoreCoinParams.CT_BITS
+        ct_bits = CoreElementsParams.CT_BITS
 
     # Sign rangeproof
     # If min_value is 0, scriptPubKey must be unspendable
-- 
2.43.0


From 239347240c99c92beb1ae0c18ad0ef3b8575c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 07/28] fix: taproot sighash with ANYONECANPAY must commit to
 length of spent script

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 6c81827..a7afc60 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -347,7 +347,7 @@ def ElementsSignatureHashSchnorr(
         f.write(txTo.vin[inIdx].prevout.serialize())
         f.write(spent_outputs[inIdx].nAsset.serialize())
         f.write(spent_outputs[inIdx].nValue.serialize())
-        f.write(spent_outputs[inIdx].scriptPubKey)
+        BytesSerializer.stream_serialize(spent_outputs[inIdx].scriptPubKey, f)
         f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
         if txTo.vin[inIdx].assetIssuance.is_null():
             f.write(b'\x00')
-- 
2.43.0


From a567075f9bb51bcca9557ab22225ea0d2fc4ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:22 +0000
Subject: [PATCH 08/28] fix: taproot sighash with ANYONECANPAY must commit to
 lengths of issuance rangeproofs

---
 elementstx/core/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index a7afc60..b09153e 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -357,8 +357,8 @@ def ElementsSignatureHashSchnorr(
             inwit = txTo.wit.vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
-                    inwit.issuanceAmountRangeproof
-                    + inwit.inflationKeysRangeproof
+                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
+                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                 ).digest()
             )
     else:
-- 
2.43.0


From 28f1a37ed507f019b62fd93c34d1c19709c80e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:27 +0000
Subject: [PATCH 09/28] fix: taproot sighash must include annex hash without
 length prefix

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b09153e..807392f 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -365,7 +365,7 @@ def ElementsSignatureHashSchnorr(
         f.write(struct.pack('<I', inIdx))
 
     if annex_hash is not None:
-        BytesSerializer.stream_serialize(annex_hash, f)
+        f.write(annex_hash)
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-- 
2.43.0


From 74a926cd5c1d6502c2080f1c59f4149ecec7b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 10/28] fix: taproot SIGHASH_SINGLE without matching output
 must raise ValueError

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 807392f..d00eaa0 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -369,7 +369,7 @@ def ElementsSignatureHashSchnorr(
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-        if outIdx > len(txTo.vout):
+        if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
         f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
-- 
2.43.0


From 895608f23201e90cd2fce75b872bed2fdfcabba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 11/28] fix: taproot sighash for transactions with absent
 witness records

---
 elementstx/core/script.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index d00eaa0..3bc9827 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -281,6 +281,17 @@ def ElementsSignatureHashSchnorr(
 
         return bytes([opf >> 24])
 
+    # Witness records may be absent, this is equivalent to them being empty
+    def get_inwit(idx: int) -> 'elementstx.core.CElementsTxInWitness':
+        if idx < len(txTo.wit.vtxinwit):
+            return txTo.wit.vtxinwit[idx]
+        return elementstx.core.CElementsTxInWitness()
+
+    def get_outwit(idx: int) -> 'elementstx.core.CElementsTxOutWitness':
+        if idx < len(txTo.wit.vtxoutwit):
+            return txTo.wit.vtxoutwit[idx]
+        return elementstx.core.CElementsTxOutWitness()
+
     if input_type != SIGHASH_ANYONECANPAY:
         outpoints_flag_hashobj = hashlib.sha256()
         assets_amounts_hashobj = hashlib.sha256()
@@ -304,7 +315,7 @@ def ElementsSignatureHashSchnorr(
             else:
                 issuances_hashobj.update(txin.assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inp_i]
+            inwit = get_inwit(inp_i)
             issuance_rangeproof_hashobj.update(
                 BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
             issuance_rangeproof_hashobj.update(
@@ -330,7 +341,7 @@ def ElementsSignatureHashSchnorr(
         for outp_i, txout in enumerate(txTo.vout):
             outputs_hashobj.update(txout.serialize())
             output_witnesses_hashobj.update(
-                txTo.wit.vtxoutwit[outp_i].serialize())
+                get_outwit(outp_i).serialize())
 
         f.write(outputs_hashobj.digest())
         f.write(output_witnesses_hashobj.digest())
@@ -354,7 +365,7 @@ def ElementsSignatureHashSchnorr(
         else:
             f.write(txTo.vin[inIdx].assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inIdx]
+            inwit = get_inwit(inIdx)
             f.write(
                 hashlib.sha256(
                     BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
@@ -372,7 +383,7 @@ def ElementsSignatureHashSchnorr(
         if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
-        f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
+        f.write(hashlib.sha256(get_outwit(outIdx).serialize()).digest())
 
     if sigversion == SIGVERSION_TAPSCRIPT:
         if tapleaf_hash is None:
-- 
2.43.0


From 503b4eb5d0e6ec30187e24ac16a4c453a3896707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 12/28] fix: virtual size calculation for Elements transaction
 encoding

---
 elementstx/core/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d6f8376..69e1394 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1142,6 +1142,21 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
             VectorSerializer.stream_serialize(self.vout, f)
             f.write(struct.pack(b"<I", self.nLockTime))
 
+    def get_virtual_size(self) -> int:
+        """Calculate virtual size for the transaction.
+
+        Note that calculation does not take sigops into account."""
+        # The calculation of the superclass is for the bitcoin encoding,
+        # that has no flag byte if there is no witness, and has both marker
+        # and flag bytes if there is one.
+        f = BytesIO()
+        self.stream_serialize(f, include_witness=False)
+        stripped_size = len(f.getbuffer())
+        f = BytesIO()
+        self.stream_serialize(f)
+        total_size = len(f.getbuffer())
+        return (stripped_size * 3 + total_size + 3) // 4
+
     @property
     def num_issuances(self) -> int:
         numIssuances = 0
-- 
2.43.0


From f3bc4d3954fbe9de9dfb9cc6448305f6c243d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 13/28] fix: refuse to blind reissuance that has inflation keys

---
 elementstx/core/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 69e1394..2fab206 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1386,6 +1386,10 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
             else:
+                if not issuance.nInflationKeys.is_null():
+                    return BlindingFailure(
+                        'issuance for input %d is a reissuance, '
+                        'but nInflationKeys is not empty' % i)
                 asset = calculate_asset(issuance.assetEntropy)
 
             if not issuance.nAmount.is_null():
-- 
2.43.0


From e92e427753e274df5f2e56ec8ea87f82ffe2a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 14/28] fix: value of OP_DETERMINISTICRANDOM

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 3bc9827..8adcdf0 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -45,7 +45,7 @@ import elementstx.core
 # to have CBitcoinScriptOp and CElementsScriptOp, but
 # this is too heavy for this small issue. These opcodes are useable as-is,
 # the only proble is that they will be shown as UNKNOWN for repr(script).
-OP_DETERMINISTICRANDOM = CScriptOp(0xc1)
+OP_DETERMINISTICRANDOM = CScriptOp(0xc0)
 OP_CHECKSIGFROMSTACK = CScriptOp(0xc1)
 OP_CHECKSIGFROMSTACKVERIFY = CScriptOp(0xc2)
 
-- 
2.43.0


From 810ba3f5dec8db40ca265655dae5384b5289edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:27 +0000
Subject: [PATCH 15/28] fix: check for failure of surjection proof
 serialization

---
 elementstx/core/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 2fab206..df5ca6f 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1997,8 +1997,11 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
             secp256k1.ctx.blind, proof)
         output_len = ctypes.c_size_t(expected_output_len)
         serialized_proof = ctypes.create_string_buffer(output_len.value)
-        secp256k1.lib.secp256k1_surjectionproof_serialize(
+        ret = secp256k1.lib.secp256k1_surjectionproof_serialize(
             secp256k1.ctx.blind, serialized_proof, ctypes.byref(output_len), proof)
+        if 1 != ret:
+            assert ret == 0
+            raise RuntimeError('secp256k1_surjectionproof_serialize returned failure')
         assert output_len.value == expected_output_len
     finally:
         secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
-- 
2.43.0


From 08bed433fc95365ba4ee91eb9b5140f9b88a401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 16/28] fix: restore the name of CAsset.to_commitment()

---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index df5ca6f..58188f6 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -308,7 +308,7 @@ class CAsset(Uint256):
     def __repr__(self) -> str:
         return "{}('{}')".format(self.__class__.__name__, self.to_hex())
 
-    def to_comm_secp256k1itment(self) -> bytes:
+    def to_commitment(self) -> bytes:
         secp256k1 = get_secp256k1()
         gen = ctypes.create_string_buffer(64)
         res = secp256k1.lib.secp256k1_generator_generate(
-- 
2.43.0


From f5713da6e34c4485a8db37918bf7fcb180775a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 17/28] fix: copy hash given to outpoint as mutable buffer

---
 elementstx/core/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 58188f6..4265525 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -405,6 +405,12 @@ class CElementsOutPoint(COutPoint, CoreElementsClass):
     to_immutable: ClassVar[Callable[['CElementsOutPoint'],
                                     'CElementsOutPoint']]
 
+    def __init__(self, hash: Union[bytes, bytearray] = b'\x00'*32,
+                 n: int = 0xffffffff):
+        super(CElementsOutPoint, self).__init__(hash, n)
+        # The buffer must not be shared with the caller if it is a bytearray
+        object.__setattr__(self, 'hash', bytes(hash))
+
 
 class CElementsMutableOutPoint(CElementsOutPoint, CMutableOutPoint,
                                mutable_of=CElementsOutPoint):
-- 
2.43.0


From 5e862c16719308c6fb8d8a6ff630f3be9dd24443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 18/28] fix: redeem script of confidential address must be that
 of its unconfidential form

---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index d126076..9850a59 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -158,7 +158,7 @@ class CCoinConfidentialAddress(CCoinAddress):
         return self.to_unconfidential().to_scriptPubKey()
 
     def to_redeemScript(self) -> CScript:
-        return self.to_unconfidential().to_scriptPubKey()
+        return self.to_unconfidential().to_redeemScript()
 
     def from_scriptPubKey(self) -> None:  # type: ignore
         raise CCoinAddressError(
-- 
2.43.0


From 835eb19df78443a47748eb0e22451ad3117a9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 19/28] fix: base58 address of wrong length must be refused
 with address error

---
 elementstx/wallet.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index 9850a59..519dc92 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -23,7 +23,7 @@ from bitcointx.wallet import (
     CCoinAddress, P2SHCoinAddress, P2WSHCoinAddress,
     P2PKHCoinAddress, P2WPKHCoinAddress, P2TRCoinAddress,
     CBase58CoinAddress, CBech32CoinAddress,
-    CCoinAddressError,
+    CCoinAddressError, CBase58AddressError,
     CCoinKey, CCoinExtKey, CCoinExtPubKey
 )
 from bitcointx.util import (
@@ -288,6 +288,25 @@ class CElementsAddressBase(CCoinAddress):
         return len(f.getbuffer())
 
 
+T_CBase58ElementsLengthChecked = TypeVar('T_CBase58ElementsLengthChecked',
+                                         bound='CBase58ElementsLengthChecked')
+
+
+class CBase58ElementsLengthChecked(CBase58CoinAddress):
+    @classmethod
+    def base58_from_bytes_match_prefix(
+        cls: Type[T_CBase58ElementsLengthChecked], data: bytes
+    ) -> T_CBase58ElementsLengthChecked:
+        for candidate in cls.base58_get_match_candidates():
+            pfx = candidate.base58_prefix
+            if pfx and data.startswith(pfx) and \
+                    len(data) != len(pfx) + candidate._data_length:
+                raise CBase58AddressError(
+                    f'incorrect length of the data for {candidate.__name__}')
+
+        return super().base58_from_bytes_match_prefix(data)
+
+
 class CElementsAddress(CElementsAddressBase, WalletElementsClass):
     ...
 
@@ -296,7 +315,7 @@ class CElementsConfidentialAddress(CCoinConfidentialAddress, CElementsAddress):
     ...
 
 
-class CBase58ElementsAddress(CBase58CoinAddress, CElementsAddress):
+class CBase58ElementsAddress(CBase58ElementsLengthChecked, CElementsAddress):
     ...
 
 
@@ -398,7 +417,8 @@ class CElementsLiquidV1ConfidentialAddress(CCoinConfidentialAddress, CElementsLi
     ...
 
 
-class CBase58ElementsLiquidV1Address(CBase58CoinAddress, CElementsLiquidV1Address):
+class CBase58ElementsLiquidV1Address(CBase58ElementsLengthChecked,
+                                     CElementsLiquidV1Address):
     ...
 
 
-- 
2.43.0


From c5532bc1b4b798f35100fc965f645ade5929077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 20/28] fix: taproot script tree of Elements when non-Elements
 chain parameters are selected

---
 elementstx/core/script.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 8adcdf0..c383b31 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -14,13 +14,13 @@
 import struct
 import hashlib
 from io import BytesIO
-from typing import Optional, Tuple, Sequence
+from typing import Any, Optional, Tuple, Sequence
 
 from bitcointx.util import (
     no_bool_use_as_property, ensure_isinstance, activate_class_dispatcher
 )
 from bitcointx.core import Hash
-from bitcointx.core.key import CKey, CKeyBase
+from bitcointx.core.key import CKey, CKeyBase, XOnlyPubKey
 from bitcointx.core.script import (
     ScriptCoinClassDispatcher, ScriptCoinClass,
     CScript, CScriptOp,
@@ -519,7 +519,28 @@ class CElementsScript(CScript, ScriptElementsClass):
 
 
 class TaprootElementsScriptTree(TaprootScriptTree, ScriptElementsClass):
-    ...
+
+    # The base class looks up tag hashers and default leaf version via
+    # the generic params class. They have to be the Elements ones regardless
+    # of the currently chosen chain parameters.
+
+    def __init__(self, *args: Any, **kwargs: Any) -> None:
+        prev_dispatcher = activate_class_dispatcher(
+            elementstx.core.CoreElementsClassDispatcher)
+        try:
+            super().__init__(*args, **kwargs)
+        finally:
+            activate_class_dispatcher(prev_dispatcher)
+
+    def set_internal_pubkey(
+        self, internal_pubkey: Optional[XOnlyPubKey]
+    ) -> None:
+        prev_dispatcher = activate_class_dispatcher(
+            elementstx.core.CoreElementsClassDispatcher)
+        try:
+            super().set_internal_pubkey(internal_pubkey)
+        finally:
+            activate_class_dispatcher(prev_dispatcher)
 
 
 __all__ = (
-- 
2.43.0


From 5af1668fddb6ccc86e456d9a39975f17d61553c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 21/28] fix: neuter() of extended key of a network that is not
 currently selected

---
 elementstx/wallet.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index 519dc92..a007e0c 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -408,6 +408,11 @@ class CElementsExtPubKey(CCoinExtPubKey, WalletElementsClass):
 class CElementsExtKey(CCoinExtKey, WalletElementsClass):
     base58_prefix = b'\x04\x35\x83\x94'
 
+    # The base class looks this up via the currently chosen chain parameters
+    @property
+    def _xpub_class(self) -> Type[CCoinExtPubKey]:
+        return CElementsExtPubKey
+
 
 class CElementsLiquidV1Address(CElementsAddressBase, WalletElementsLiquidV1Class):
     ...
@@ -510,6 +515,11 @@ class CElementsLiquidV1ExtPubKey(CCoinExtPubKey, WalletElementsLiquidV1Class):
 class CElementsLiquidV1ExtKey(CCoinExtKey, WalletElementsLiquidV1Class):
     base58_prefix = b'\x04\x88\xAD\xE4'
 
+    # The base class looks this up via the currently chosen chain parameters
+    @property
+    def _xpub_class(self) -> Type[CCoinExtPubKey]:
+        return CElementsLiquidV1ExtPubKey
+
 
 __all__ = (
     'CConfidentialAddressError',
-- 
2.43.0


From 3b464ab6d01928826475afac3d667713f28e21d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 22/28] fix: auxiliary generators and rangeproof given as
 bytearray

---
 elementstx/core/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 4265525..4fa60a9 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1349,7 +1349,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 # Parse generator here
                 asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                 result = secp256k1.lib.secp256k1_generator_parse(
-                    secp256k1.ctx.blind, asset_generator, auxiliary_generators[i])
+                    secp256k1.ctx.blind, asset_generator, bytes(auxiliary_generators[i]))
                 if result != 1:
                     assert result == 0
                     return BlindingFailure(
@@ -1434,7 +1434,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
             ret = secp256k1.lib.secp256k1_generator_parse(
                 secp256k1.ctx.blind,
-                gen_buf, auxiliary_generators[len(tx.vin)+n])
+                gen_buf, bytes(auxiliary_generators[len(tx.vin)+n]))
             if ret != 1:
                 assert ret == 0
                 return BlindingFailure(
@@ -2103,7 +2103,7 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
         msg, ctypes.byref(msg_size),
         nonce,
         ctypes.byref(min_value), ctypes.byref(max_value),
-        commit, rangeproof, len(rangeproof),
+        commit, bytes(rangeproof), len(rangeproof),
         committedScript or None, len(committedScript),
         observed_gen)
 
-- 
2.43.0


From c733398021d1664c69f0aabe86168a856b53acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 23/28] fix: refuse issuance blinding keys for input without
 issuance

---
 elementstx/core/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 4fa60a9..e4400e6 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1484,7 +1484,16 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
 
         # Count number of issuance pseudo-inputs to blind
         issuance = tx.vin[nIn].assetIssuance
-        if not issuance.is_null():
+        if issuance.is_null():
+            if len(blind_issuance_asset_keys) > nIn and blind_issuance_asset_keys[nIn] is not None:
+                return BlindingFailure(
+                    'blind_issuance_asset_keys is specified for input %d, '
+                    'but this input has no issuance' % nIn)
+            if len(blind_issuance_token_keys) > nIn and blind_issuance_token_keys[nIn] is not None:
+                return BlindingFailure(
+                    'blind_issuance_token_keys is specified for input %d, '
+                    'but this input has no issuance' % nIn)
+        else:
             # Marked for blinding
             if len(blind_issuance_asset_keys) > nIn and blind_issuance_asset_keys[nIn] is not None:
                 if not issuance.nAmount.is_explicit():
-- 
2.43.0


From 24a0f3496f1ecd46f9ee484b1e8f481dd088d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 24/28] fix: check types of issuance keys and rangeproof
 parameters before modifying transaction

---
 elementstx/core/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index e4400e6..24b3f5d 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1243,12 +1243,12 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
     if not (len(tx.vin) >= len(blind_issuance_asset_keys)):
         raise ValueError('unexpected extra blind_issuance_asset_keys')
     for i, k in enumerate(blind_issuance_asset_keys):
-        if k:
+        if k is not None:
             ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_asset_keys')
     if not len(tx.vin) >= len(blind_issuance_token_keys):
         raise ValueError('unexpected extra blind_issuance_token_keys')
     for i, k in enumerate(blind_issuance_token_keys):
-        if k:
+        if k is not None:
             ensure_isinstance(k, CKeyBase, f'key {i} in blind_issuance_token_keys')
 
     if len(tx.vin) != len(input_descriptors):
@@ -1263,6 +1263,17 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                           f'asset of input descriptor {i}')
         ensure_isinstance(idesc.amount, int, f'amount of input descriptor {i}')
 
+    # Wrong parameters for the rangeproofs should be noticed
+    # before the transaction is modified
+    if custom_ct_exponent is not None:
+        ensure_isinstance(custom_ct_exponent, int, 'custom_ct_exponent')
+        if not (-1 <= custom_ct_exponent <= 18):
+            raise ValueError('custom_ct_exponent is out of range')
+    if custom_ct_bits is not None:
+        ensure_isinstance(custom_ct_bits, int, 'custom_ct_bits')
+        if not (0 <= custom_ct_bits <= 64):
+            raise ValueError('custom_ct_bits is out of range')
+
     output_blinding_factors: List[Optional[Uint256]] = \
         [None for _ in range(len(tx.vout))]
     output_asset_blinding_factors: List[Optional[Uint256]] = \
-- 
2.43.0


From ead1c8b7f1e4aeb0e22ab4303ad78e199cd24c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 25/28] fix: out of bounds read when random source returns too
 few bytes for surjection proof

---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 24b3f5d..3570940 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1977,7 +1977,7 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
     # but we will try to be close to original code.
 
     nInputsToSelect = min(3, len(surjectionTargets))
-    randseed = _rand_func(32)
+    randseed = Uint256(_rand_func(32)).data
 
     input_index = ctypes.c_size_t()
     proof = ctypes.c_void_p()
-- 
2.43.0


From 161ed132e1f2b7c8382a9a17fda30915511cf6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 26/28] fix: refuse to blind amounts that cannot be blinded
 before modifying transaction

---
 elementstx/core/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 3570940..e9ce326 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1511,6 +1511,10 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     return BlindingFailure(
                         'blind_issuance_asset_keys is specified for input %d, '
                         'but issuance.nAmount is not explicit' % nIn)
+                if not MoneyRange(issuance.nAmount.to_amount()):
+                    return BlindingFailure(
+                        'blind_issuance_asset_keys is specified for input %d, '
+                        'but issuance.nAmount is out of range' % nIn)
 
                 if len(tx.wit.vtxinwit) <= nIn \
                         or len(tx.wit.vtxinwit[nIn].issuanceAmountRangeproof) == 0:
@@ -1525,6 +1529,10 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     return BlindingFailure(
                         'blind_issuance_token_keys is specified for input %d, '
                         'but issuance.nInflationKeys is not explicit' % nIn)
+                if not MoneyRange(issuance.nInflationKeys.to_amount()):
+                    return BlindingFailure(
+                        'blind_issuance_token_keys is specified for input %d, '
+                        'but issuance.nInflationKeys is out of range' % nIn)
                 if len(tx.wit.vtxinwit) <= nIn \
                         or len(tx.wit.vtxinwit[nIn].inflationKeysRangeproof) == 0:
                     nToBlind += 1
@@ -1556,6 +1564,14 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     'valid blinding pubkey specified for output %d, '
                     'but this output is a fee output' % nOut)
 
+            # The minimum value of rangeproof for spendable output is 1
+            amount = tx.vout[nOut].nValue.to_amount()
+            if not MoneyRange(amount) or (
+                    amount == 0 and not tx.vout[nOut].scriptPubKey.is_unspendable()):
+                return BlindingFailure(
+                    'valid blinding pubkey specified for output %d, '
+                    'but the amount of this output cannot be blinded' % nOut)
+
             nToBlind += 1
 
     # First blind issuance pseudo-inputs
-- 
2.43.0


From baa3a8b58ca311c86422148cdfdec8030ddf90f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 27/28] fix: random source that returns None gave zero blinding
 factors

---
 elementstx/core/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index e9ce326..1324dd5 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1618,7 +1618,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                         continue
 
                 # Fill out the value blinders and blank asset blinder
-                blinds.append(Uint256(_rand_func(32)))
+                blinds.append(_get_random_uint256(_rand_func))
                 # Issuances are not asset-blinded
                 assetblinds.append(Uint256())
 
@@ -1693,8 +1693,8 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             asset = out.nAsset.to_asset()
             amounts_to_blind.append(amount)
 
-            blinds.append(Uint256(_rand_func(32)))
-            assetblinds.append(Uint256(_rand_func(32)))
+            blinds.append(_get_random_uint256(_rand_func))
+            assetblinds.append(_get_random_uint256(_rand_func))
 
             # Last blinding factor r' is set as -(output's (vr + r') - input's (vr + r')).
             # Before modifying the transaction or return arguments we must
@@ -1965,6 +1965,13 @@ def generate_rangeproof(in_blinds: List[Uint256], nonce: Uint256,
     return rangeproof.raw[:nRangeProofLen.value]
 
 
+def _get_random_uint256(_rand_func: Callable[[int], bytes]) -> Uint256:
+    data = _rand_func(32)
+    # Uint256(None) would be accepted, and give zero
+    ensure_isinstance(data, (bytes, bytearray), 'result of the random function')
+    return Uint256(data)
+
+
 # Creates ECDH nonce commitment using ephemeral key and output_pubkey
 def generate_output_rangeproof_nonce(
     output_pubkey: CPubKey, _rand_func: Callable[[int], bytes] = os.urandom
@@ -1993,7 +2000,7 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
     # but we will try to be close to original code.
 
     nInputsToSelect = min(3, len(surjectionTargets))
-    randseed = Uint256(_rand_func(32)).data
+    randseed = _get_random_uint256(_rand_func).data
 
     input_index = ctypes.c_size_t()
     proof = ctypes.c_void_p()
-- 
2.43.0


From 6603da138acf1368564009a228740f9ec01cb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 28/28] fix: id of reissuance token depends on whether asset
 amount is blinded

---
 elementstx/core/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 1324dd5..686a24e 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1397,8 +1397,11 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
 
             # New Issuance
             if issuance.assetBlindingNonce.is_null():
-                blind_issuance = (len(blind_issuance_token_keys) > i
-                                  and blind_issuance_token_keys[i] is not None)
+                # The id of the token depends on whether the asset amount
+                # will be committed to, not on whether the token amount will be
+                blind_issuance = (len(blind_issuance_asset_keys) > i
+                                  and blind_issuance_asset_keys[i] is not None
+                                  and not issuance.nAmount.is_null())
                 entropy = generate_asset_entropy(tx.vin[i].prevout, issuance.assetEntropy)
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
@@ -1609,7 +1612,8 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                         asset = calculate_asset(entropy)
                     else:
                         assert token_issuance_valid
-                        asset = calculate_reissuance_token(entropy, token_issuance_valid)
+                        asset = calculate_reissuance_token(
+                            entropy, issuance.nAmount.is_commitment())
                 else:
                     if nPseudo == 0:
                         asset = calculate_asset(issuance.assetEntropy)
-- 
2.43.0

