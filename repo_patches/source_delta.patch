From 2e3cde317b1b34b338cf3956e05c9fa42032a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:20 +0000
Subject: [PATCH 01/35] fix: refuse base58 addresses whose payload is not a
 20-byte hash

---
 bit/format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/format.py b/bit/format.py
index 1f6fac4..506d63f 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -45,7 +45,10 @@ def address_to_public_key_hash(address):
 def get_version(address):
     version, _ = bech32_decode(address)
     if version is None:
-        version = b58decode_check(address)[:1]
+        decoded = b58decode_check(address)
+        if len(decoded) != 21:
+            raise ValueError('{} is an invalid length for a base58 address payload.'.format(len(decoded)))
+        version = decoded[:1]
     if version in (MAIN_PUBKEY_HASH, MAIN_SCRIPT_HASH) or version in BECH32_MAIN_VERSION_SET:
         return 'main'
     elif version in (TEST_PUBKEY_HASH, TEST_SCRIPT_HASH) or version in BECH32_TEST_VERSION_SET:
-- 
2.43.0


From 7b6e5ad5b7e977b4833e3d555ad4e60d7a1166c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:20 +0000
Subject: [PATCH 02/35] fix: raise ValueError for a segwit address with an
 invalid witness program

---
 bit/transaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index cfdc1c2..ab49f9c 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -460,6 +460,8 @@ def address_to_scriptpubkey(address):
         version = b58decode_check(address)[:1]
     except ValueError:
         witver, data = segwit_decode(address)
+        if data is None:
+            raise ValueError('{} does not contain a valid witness program.'.format(address))
         return segwit_scriptpubkey(witver, data)
 
     if version == MAIN_PUBKEY_HASH or version == TEST_PUBKEY_HASH:
-- 
2.43.0


From d32a4cf4ba7186431751f522bd84423665efa6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:20 +0000
Subject: [PATCH 03/35] fix: use OP_PUSHDATA1 for OP_RETURN messages longer
 than 75 bytes

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index ab49f9c..bb2579c 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -484,7 +484,7 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
-            script_pubkey = OP_RETURN + len(dest).to_bytes(1, byteorder='little') + dest
+            script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From dba3182b1244981896b35aa0ca327d9c658dbc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:09 +0000
Subject: [PATCH 04/35] fix: prepared transactions can carry messages

---
 bit/transaction.py | 4 ++++
 bit/wallet.py      | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index bb2579c..5f497d9 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -484,6 +484,10 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
+            # Prepared transactions store the message hex-encoded.
+            if isinstance(dest, str):
+                dest = hex_to_bytes(dest)
+
             script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
diff --git a/bit/wallet.py b/bit/wallet.py
index 03ee956..a463471 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -455,7 +455,7 @@ class PrivateKey(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -854,7 +854,7 @@ class PrivateKeyTestnet(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -1225,7 +1225,7 @@ class MultiSig:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
@@ -1553,7 +1553,7 @@ class MultiSigTestnet:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
-- 
2.43.0


From 051316009dfce68887665db5aa22e6582c3a421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:09 +0000
Subject: [PATCH 05/35] fix: keep multisig placeholders right when a co-signer
 signs twice

---
 bit/transaction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 5f497d9..0410dfb 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -657,9 +657,6 @@ def sign_tx(private_key, tx, *, unspents):
             witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
-                # Bitcoin Core convention: Every missing signature is denoted
-                # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sig_list) - 1)
                 # Total number of witness items when partially or fully signed:
                 witness_count = private_key.m + 2
                 # For a partially signed input make a dictionary containing
@@ -675,6 +672,11 @@ def sign_tx(private_key, tx, *, unspents):
 
             sigs[public_key] = signature
 
+            if input_script_field[i]:
+                # Bitcoin Core convention: Every missing signature is denoted
+                # by 0x00. Only used for already partially-signed scriptSigs:
+                script_blob += b'\x00' * (private_key.m - len(sigs))
+
             witness = b''
             # Sort ingthe signatures according to the public-key list:
             for pub in private_key.public_keys:
-- 
2.43.0


From 3728ba042cfbf19cdb441e567f26dde87e6d16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:09 +0000
Subject: [PATCH 06/35] fix: serialise an empty witness for inputs without one
 in segwit transactions

---
 bit/transaction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 0410dfb..4c4a187 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -152,7 +152,9 @@ class TxObj:
     def __bytes__(self):
         inp = int_to_varint(len(self.TxIn)) + b''.join(map(bytes, self.TxIn))
         out = int_to_varint(len(self.TxOut)) + b''.join(map(bytes, self.TxOut))
-        wit = b''.join([w.witness for w in self.TxIn])
+        wit = b''
+        if any(i.witness for i in self.TxIn):
+            wit = b''.join([i.witness or b'\x00' for i in self.TxIn])
         return b''.join([self.version, MARKER if wit else b'', FLAG if wit else b'', inp, out, wit, self.locktime])
 
     def legacy_repr(self):
-- 
2.43.0


From 62864b36f13bdc73db158f9492e1e7dd09ca79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:09 +0000
Subject: [PATCH 07/35] fix: creating a transaction no longer modifies the
 caller's unspents

---
 bit/transaction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 4c4a187..1c4ee1e 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -1,4 +1,5 @@
 import logging
+from copy import copy
 from collections import namedtuple
 from itertools import islice
 import math
@@ -426,7 +427,7 @@ def sanitize_tx_data(
     sum_outputs = sum(out[1] for out in outputs)
 
     # Use Branch-and-Bound for coin selection:
-    unspents[:], remaining = select_coins(
+    unspents, remaining = select_coins(
         sum_outputs,
         fee,
         output_size,
@@ -437,6 +438,8 @@ def sanitize_tx_data(
     )
 
     if replace_by_fee:
+        # Opt in on copies, the caller's unspents must not stay replaceable.
+        unspents = [copy(unspent) for unspent in unspents]
         for unspent in unspents:
             unspent.opt_in_for_RBF()
 
-- 
2.43.0


From c89bfc23dbe49dacfb186065dbaa41f7917aea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:48 +0000
Subject: [PATCH 08/35] fix: do not underestimate the transaction size when
 calculating the fee

---
 bit/transaction.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 1c4ee1e..5c27001 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -13,7 +13,6 @@ from bit.utils import (
     bytes_to_hex,
     chunk_data,
     hex_to_bytes,
-    int_to_unknown_bytes,
     int_to_varint,
     script_push,
     get_signatures_from_script,
@@ -187,9 +186,9 @@ def estimate_tx_fee(in_size, n_in, out_size, n_out, satoshis, segwit=False):
 
     estimated_size = math.ceil(
         in_size
-        + len(int_to_unknown_bytes(n_in, byteorder='little'))
+        + len(int_to_varint(n_in))
         + out_size
-        + len(int_to_unknown_bytes(n_out, byteorder='little'))
+        + len(int_to_varint(n_out))
         + 8
         # Accounting for magic header vBytes ('0001') 
         + (0.5 if segwit else 0)
@@ -235,7 +234,13 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
     BNB_TRIES = 1000000
 
     # COST_OF_OVERHEAD excludes the return address of output_size (last element).
-    COST_OF_OVERHEAD = (8 + sum(output_size[:-1]) + 1) * fee
+    COST_OF_OVERHEAD = (
+        8 + sum(output_size[:-1]) + len(int_to_varint(len(unspents))) + len(int_to_varint(len(output_size) - 1))
+    ) * fee
+    if any(u.segwit for u in unspents):
+        # Magic header (0.5 vBytes), one byte of empty witness (0.25 vBytes) for
+        # each legacy input and rounding up to whole vBytes (0.75 vBytes).
+        COST_OF_OVERHEAD += (1.25 + 0.25 * sum(not u.segwit for u in unspents)) * fee
 
     def branch_and_bound(d, selected_coins, effective_value, target, fee, sorted_unspents):  # pragma: no cover
 
@@ -318,8 +323,13 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
             shuffle(unspents)
         while unspents:
             selected_coins.append(unspents.pop(0))
+            segwit = any(u.segwit for u in selected_coins)
+            in_size = sum(u.vsize for u in selected_coins)
+            if segwit:
+                # One byte of empty witness (0.25 vBytes) for each legacy input.
+                in_size += 0.25 * sum(not u.segwit for u in selected_coins)
             estimated_fee = estimate_tx_fee(
-                sum(u.vsize for u in selected_coins), len(selected_coins), sum(output_size), len(output_size), fee, any(u.segwit for u in selected_coins)
+                in_size, len(selected_coins), sum(output_size), len(output_size), fee, segwit
             )
             estimated_fee = fee if absolute_fee else estimated_fee
             remaining = sum(u.amount for u in selected_coins) - target - estimated_fee
@@ -422,7 +432,7 @@ def sanitize_tx_data(
     # Include return address in output count.
     # Calculate output size as a list (including return address).
     output_size = [len(address_to_scriptpubkey(o[0])) + 9 for o in outputs]
-    output_size.append(len(messages) * (MESSAGE_LIMIT + 9))
+    output_size.extend(len(OP_RETURN + script_push(len(m)) + m) + 9 for m, _ in messages)
     output_size.append(len(address_to_scriptpubkey(leftover)) + 9)
     sum_outputs = sum(out[1] for out in outputs)
 
-- 
2.43.0


From 1fdca493304eb688ae4422de9be64df11b11ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 09/35] fix: order a multisig set by the public keys, not by
 their encoding

---
 bit/wallet.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index a463471..d22c44c 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -964,20 +964,21 @@ class MultiSig:
         if private_key.instance != 'PrivateKey':
             raise TypeError('MultiSig only accepts a PrivateKey class to assign a private key.')
 
-        if bytes_to_hex(private_key.public_key) not in public_keys and private_key.public_key not in public_keys:
-            raise ValueError('Private key does not match any provided public key.')
-
         if type(public_keys) not in (list, set):
             raise TypeError('The public keys must be provided in a list or set.')
 
+        self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        if type(public_keys) == set:
+            self.public_keys.sort()
+
+        if private_key.public_key not in self.public_keys:
+            raise ValueError('Private key does not match any provided public key.')
+
         self.version = 'main'
         self.instance = 'MultiSig'
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
-        self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
@@ -1287,20 +1288,21 @@ class MultiSigTestnet:
         if private_key.instance != 'PrivateKeyTestnet':
             raise TypeError('MultiSigTesnet only accepts PrivateKeyTestnet class to assign a private key.')
 
-        if bytes_to_hex(private_key.public_key) not in public_keys and private_key.public_key not in public_keys:
-            raise ValueError('Private key does not match any provided public key.')
-
         if type(public_keys) not in (list, set):
             raise TypeError('The public keys must be provided in a list or set.')
 
+        self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        if type(public_keys) == set:
+            self.public_keys.sort()
+
+        if private_key.public_key not in self.public_keys:
+            raise ValueError('Private key does not match any provided public key.')
+
         self.version = 'test'
         self.instance = 'MultiSigTestnet'
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
-        self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
-- 
2.43.0


From 69d96b7d988bb261962d32bea415bcaf5876352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 10/35] fix: refuse multisig contracts that require less than
 one signature

---
 bit/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 506d63f..d157fce 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -143,6 +143,9 @@ def public_key_to_segwit_address(public_key, version='main'):
 
 def multisig_to_redeemscript(public_keys, m):
 
+    if m < 1:
+        raise ValueError('At least one signature must be required.')
+
     if m > len(public_keys):
         raise ValueError('Required signatures cannot be more than the total number of public keys.')
 
-- 
2.43.0


From be3daa60c7b8408cbeb3e88b2548960e899c0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:27 +0000
Subject: [PATCH 11/35] fix: generated WIFs control the address they are shown
 with

---
 bit/keygen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index c26f3da..1aaf939 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -12,7 +12,7 @@ from bit.format import bytes_to_wif, public_key_to_address
 def generate_key_address_pair():  # pragma: no cover
     private_key = ECPrivateKey()
     address = public_key_to_address(private_key.public_key.format())
-    return bytes_to_wif(private_key.secret), address
+    return bytes_to_wif(private_key.secret, compressed=True), address
 
 
 def generate_matching_address(prefix, cores='all'):  # pragma: no cover
@@ -60,7 +60,7 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
         sys.stdout.flush()
 
     private_key, address = queue.get()
-    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key), address))
+    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
 def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
-- 
2.43.0


From e4161f420d252280a27291555d6cf62cf2ac7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:10 +0000
Subject: [PATCH 12/35] fix: a failed refresh leaves the wallet's unspents,
 balance and transactions untouched

---
 bit/wallet.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index d22c44c..e9d85ca 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -231,14 +231,15 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+            unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -247,9 +248,10 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = NetworkAPI.get_transactions(self.address)
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions = transactions + NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -628,16 +630,17 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent_testnet(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent_testnet(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -646,9 +649,10 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = NetworkAPI.get_transactions_testnet(self.address)
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions = transactions + NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1070,11 +1074,12 @@ class MultiSig:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize:
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
+        unspents = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wsh', add_np2wsh_vsize), NetworkAPI.get_unspent(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1083,9 +1088,10 @@ class MultiSig:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = NetworkAPI.get_transactions(self.address)
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions = transactions + NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1394,16 +1400,17 @@ class MultiSigTestnet:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(
+        unspents = list(
             map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent_testnet(self.address))
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(
                     lambda u: u.set_type('np2wsh', add_np2wsh_vsize),
                     NetworkAPI.get_unspent_testnet(self.segwit_address),
                 )
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1412,9 +1419,10 @@ class MultiSigTestnet:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = NetworkAPI.get_transactions_testnet(self.address)
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions = transactions + NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
-- 
2.43.0


From 3418fa6ce8d543ca361518cfc9e6eb6c8cf7c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 13/35] fix: a node's balance query no longer loses satoshis
 and changes the global decimal precision

---
 bit/network/services.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 9578c63..e99b9b0 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,9 +1,7 @@
 import requests
 import json
 import logging
-from decimal import Decimal, getcontext
 
-from bit.constants import BTC
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
 from bit.exceptions import BitcoinNodeException, ExcessiveAddress
@@ -31,9 +29,7 @@ class RPCHost:
         return RPCMethod(rpc_method, self)
 
     def get_balance(self, address):
-        getcontext().prec = len(str(BTC))
-        b = Decimal(self.getreceivedbyaddress(address, 0))
-        return int(b * BTC)
+        return currency_to_satoshi(self.getreceivedbyaddress(address, 0), "btc")
 
     def get_balance_testnet(self, address):
         return self.get_balance(address)
-- 
2.43.0


From d38044c004597c815def1d02c9ca2761e3abfd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 14/35] fix: an error status of the Bitcore balance API no
 longer prevents failover

---
 bit/network/services.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index e99b9b0..1dcde7c 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -610,13 +610,15 @@ class BitcoreAPI(InsightAPI):
     @classmethod
     def get_balance(cls, address):
         r = requests.get(cls.MAIN_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
     def get_balance_testnet(cls, address):
         r = requests.get(cls.TEST_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
-- 
2.43.0


From 4885fc4e937a31c2fe91280499b3361f8da80e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 15/35] fix: fail over when a provider fails on a later page

---
 bit/network/services.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 1dcde7c..93f5d36 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -384,7 +384,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -411,7 +414,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         return transactions
@@ -601,9 +607,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -644,9 +653,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -696,7 +708,10 @@ class BlockchainAPI:
             total_txs -= txs_per_page
             offset += txs_per_page
             payload['offset'] = str(offset)
-            response = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return transactions
 
-- 
2.43.0


From 3471f19c3b25b97c1c3583016a178903921cb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 16/35] fix: Blockchair reports no unspents as an empty list

---
 bit/network/services.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 93f5d36..c8e1ad3 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -224,7 +224,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
@@ -267,7 +267,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
-- 
2.43.0


From bd8e59d5feb81ebfb7786e0a2bc03d243f6b35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:11 +0000
Subject: [PATCH 17/35] fix: fail over when Blockstream refuses a testnet
 address with too many unspents

---
 bit/network/services.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index c8e1ad3..bfd66b9 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -482,7 +482,10 @@ class BlockstreamAPI:
 
         r = requests.get(cls.TEST_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
-        if r.status_code == 400:  # pragma: no cover
+        #! BlockstreamAPI blocks addresses with "too many" UTXOs.
+        if r.status_code == 400 and r.text == "Too many history entries":
+            raise ExcessiveAddress
+        elif r.status_code == 400:  # pragma: no cover
             return []
         elif r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-- 
2.43.0


From a6f0cc602609ae427d325292f07728cd1eca2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:50 +0000
Subject: [PATCH 18/35] fix: sign nested segwit unspents as such when prepared
 from the network

---
 bit/transaction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 5c27001..00f15d7 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -598,12 +598,18 @@ def sign_tx(private_key, tx, *, unspents):
     # input_dict contains those unspents that can be signed by private_key,
     # providing additional information for segwit-inputs (the amount to spend)
     input_dict = {}
+    segwit_script = None
+    if private_key.segwit_address:
+        segwit_script = bytes_to_hex(address_to_scriptpubkey(private_key.segwit_address))
     try:
         for unspent in unspents:
             if not private_key.can_sign_unspent(unspent):
                 continue
             tx_input = hex_to_bytes(unspent.txid)[::-1] + unspent.txindex.to_bytes(4, byteorder='little')
             input_dict[tx_input] = unspent.to_dict()
+            if unspent.script == segwit_script:
+                # Unspents fetched for an address do not know they are nested segwit.
+                input_dict[tx_input]['segwit'] = True
     except TypeError:
         raise TypeError(
             'Please provide as unspents at least all inputs to be signed with the function call in a list.'
-- 
2.43.0


From a361bd382247f822b2f3c52d01862eb0d9fc87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:20 +0000
Subject: [PATCH 19/35] fix: coin selection no longer exceeds the recursion
 limit with a thousand unspents

---
 bit/transaction.py | 69 ++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 42 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 00f15d7..1270227 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -242,10 +242,9 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
         # each legacy input and rounding up to whole vBytes (0.75 vBytes).
         COST_OF_OVERHEAD += (1.25 + 0.25 * sum(not u.segwit for u in unspents)) * fee
 
-    def branch_and_bound(d, selected_coins, effective_value, target, fee, sorted_unspents):  # pragma: no cover
+    def branch_and_bound(target, fee, sorted_unspents):  # pragma: no cover
 
         nonlocal COST_OF_OVERHEAD, BNB_TRIES
-        BNB_TRIES -= 1
         COST_PER_INPUT = 148 * fee  # Just typical estimate values
         COST_PER_OUTPUT = 34 * fee
 
@@ -258,58 +257,44 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
         # perfect match:
         # match_range += int(0.1 * fee * sum(u.vsize for u in selected_coins))
 
-        # Check for solution and cut criteria:
-        if effective_value > target_to_match + match_range:
-            return []
-        elif effective_value >= target_to_match:
-            return selected_coins
-        elif BNB_TRIES <= 0:
-            return []
-        elif d >= len(sorted_unspents):
-            return []
-        else:
-            # Randomly explore next branch:
-            binary_random = randint(0, 1)
-            if binary_random:
-                # Explore inclusion branch first, else omission branch:
-                effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
+        # Branches that are left to explore. Not a recursion, since its depth
+        # would be limited to less than the number of unspents.
+        branches = [(0, [], 0)]
 
-                with_this = branch_and_bound(
-                    d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                )
+        while branches:
+            d, selected_coins, effective_value = branches.pop()
+            BNB_TRIES -= 1
 
-                if with_this != []:
-                    return with_this
-                else:
-                    without_this = branch_and_bound(
-                        d + 1, selected_coins, effective_value, target, fee, sorted_unspents
-                    )
+            # Check for solution and cut criteria:
+            if effective_value > target_to_match + match_range:
+                continue
+            elif effective_value >= target_to_match:
+                return selected_coins
+            elif BNB_TRIES <= 0:
+                continue
+            elif d >= len(sorted_unspents):
+                continue
 
-                    return without_this
+            effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
+            with_this = (d + 1, selected_coins + [sorted_unspents[d]], effective_value_new)
+            without_this = (d + 1, selected_coins, effective_value)
 
+            # Randomly explore next branch:
+            binary_random = randint(0, 1)
+            if binary_random:
+                # Explore inclusion branch first, else omission branch:
+                branches += [without_this, with_this]
             else:
-                # As above but explore omission branch first:
-                without_this = branch_and_bound(d + 1, selected_coins, effective_value, target, fee, sorted_unspents)
-
-                if without_this != []:
-                    return without_this
-                else:
-                    effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
+                branches += [with_this, without_this]
 
-                    with_this = branch_and_bound(
-                        d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                    )
-
-                    return with_this
+        return []
 
     sorted_unspents = sorted(unspents, key=lambda u: u.amount, reverse=True)
     selected_coins = []
 
     if not consolidate and not absolute_fee:
         # Trying to find a perfect match using Branch-and-Bound:
-        selected_coins = branch_and_bound(
-            d=0, selected_coins=[], effective_value=0, target=target, fee=fee, sorted_unspents=sorted_unspents
-        )
+        selected_coins = branch_and_bound(target=target, fee=fee, sorted_unspents=sorted_unspents)
         remaining = 0
 
     # Fallback: If no match, Single Random Draw with return address:
-- 
2.43.0


From 936a4a758d1dda6fe9db12ac0fd2fc31c2d106c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:49 +0000
Subject: [PATCH 20/35] fix: testnet history from Blockstream includes
 unconfirmed transactions

---
 bit/network/services.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index bfd66b9..33e9171 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -396,10 +396,27 @@ class BlockstreamAPI:
 
     @classmethod
     def get_transactions_testnet(cls, address):
+        #! Blockstream returns at most 50 mempool (unconfirmed) transactions and ignores the rest
+        mempool_endpoint = cls.TEST_ADDRESS_API + '/txs/mempool'
+
         endpoint = cls.TEST_ADDRESS_API + '/txs/chain/{}'
 
         transactions = []
 
+        # Add mempool (unconfirmed) transactions
+        r = requests.get(mempool_endpoint.format(address), timeout=DEFAULT_TIMEOUT)
+        if r.status_code == 400:  # pragma: no cover
+            return []
+        elif r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
+        response = r.json()
+        unconfirmed = [tx['txid'] for tx in response]
+
+        # It is safer to raise exception if API returns exactly 50 unconfirmed
+        # transactions, as there could be more that the API is unaware of.
+        if len(unconfirmed) == 50:  # pragma: no cover
+            raise ExcessiveAddress
+
         r = requests.get(endpoint.format(address, ''), timeout=DEFAULT_TIMEOUT)
         if r.status_code == 400:  # pragma: no cover
             return []
@@ -407,7 +424,7 @@ class BlockstreamAPI:
             raise ConnectionError
         response = r.json()
 
-        # The first 50 mempool and 25 confirmed transactions are shown with no
+        # The first 25 confirmed transactions are shown with no
         # indication of the number of total transactions.
         total_txs = len(response)
 
@@ -420,6 +437,8 @@ class BlockstreamAPI:
             response = r.json()
             total_txs = len(response)
 
+        transactions.extend(unconfirmed)
+
         return transactions
 
     @classmethod
-- 
2.43.0


From 43f3094c6d946aa7b892e8fdeb079ecd6e5e3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:49 +0000
Subject: [PATCH 21/35] fix: an error of the blockchain.info unspent API is no
 longer taken for an empty address

---
 bit/network/services.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 33e9171..f7d6958 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -756,7 +756,7 @@ class BlockchainAPI:
 
         r = requests.get(endpoint, params=payload, timeout=DEFAULT_TIMEOUT)
 
-        if r.status_code == 500:  # pragma: no cover
+        if r.status_code == 500 and 'No free outputs to spend' in r.text:  # pragma: no cover
             return []
         elif r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-- 
2.43.0


From 342f357921a72acb0f87db50c467178902daee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:49 +0000
Subject: [PATCH 22/35] fix: node credentials may contain characters that are
 special in URLs

---
 bit/network/services.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index f7d6958..08e20d0 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,6 +1,7 @@
 import requests
 import json
 import logging
+from urllib.parse import quote
 
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
@@ -20,7 +21,12 @@ class RPCHost:
     def __init__(self, user, password, host, port, use_https, path):
         self._session = requests.Session()
         self._url = "http{s}://{user}:{password}@{host}:{port}/{path}".format(
-            s="s" if use_https else "", user=user, password=password, host=host, port=port, path=path
+            s="s" if use_https else "",
+            user=quote(str(user), safe=""),
+            password=quote(str(password), safe=""),
+            host=host,
+            port=port,
+            path=path,
         )
         self._headers = {"content-type": "application/json"}
         self._session.verify = use_https
-- 
2.43.0


From 5cbfd50115a21335b93670d980d963be38fa8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:26 +0000
Subject: [PATCH 23/35] fix: a node's failure status without a JSON body raises
 the node error

---
 bit/network/services.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 08e20d0..f91b6f3 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -100,7 +100,10 @@ class RPCMethod:
             raise ConnectionError
         if response.status_code not in (200, 500):
             raise BitcoinNodeException("RPC connection failure: " + str(response.status_code) + " " + response.reason)
-        responseJSON = response.json()
+        try:
+            responseJSON = response.json()
+        except ValueError:
+            raise BitcoinNodeException("RPC connection failure: " + str(response.status_code) + " " + response.reason)
         if "error" in responseJSON and responseJSON["error"] is not None:
             raise BitcoinNodeException("Error in RPC call: " + str(responseJSON["error"]))
         return responseJSON["result"]
-- 
2.43.0


From 88935de96e12dee3e3fc32c6a7ae39530e0bcfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:13 +0000
Subject: [PATCH 24/35] fix: an unusable answer of the fee service yields the
 cached or default fee

---
 bit/network/fees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 643547a..78fa32a 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -3,7 +3,7 @@ from functools import wraps
 from time import time
 
 import requests
-from requests.exceptions import ConnectionError, HTTPError, Timeout
+from requests.exceptions import RequestException
 
 # Default fees last updated 2019-04-02
 DEFAULT_FEE_FAST = 72
@@ -55,7 +55,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_fast = request.json()['fastestFee']
                     fast_last_update = now
-                except (ConnectionError, HTTPError, Timeout):  # pragma: no cover
+                except (RequestException, ValueError, KeyError):  # pragma: no cover
                     if cached_fee_fast is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (fast) of {}'.format(DEFAULT_FEE_FAST)
@@ -79,7 +79,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_hour = request.json()['hourFee']
                     hour_last_update = now
-                except (ConnectionError, HTTPError, Timeout):  # pragma: no cover
+                except (RequestException, ValueError, KeyError):  # pragma: no cover
                     if cached_fee_hour is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (hour) of {}'.format(DEFAULT_FEE_HOUR)
-- 
2.43.0


From 75833e4c5b37acdbed23025fc70f0194fb0264cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:47 +0000
Subject: [PATCH 25/35] fix: a fee answer that is not a JSON object yields the
 cached or default fee

---
 bit/network/fees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 78fa32a..a4919c4 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -55,7 +55,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_fast = request.json()['fastestFee']
                     fast_last_update = now
-                except (RequestException, ValueError, KeyError):  # pragma: no cover
+                except (RequestException, ValueError, KeyError, TypeError):  # pragma: no cover
                     if cached_fee_fast is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (fast) of {}'.format(DEFAULT_FEE_FAST)
@@ -79,7 +79,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_hour = request.json()['hourFee']
                     hour_last_update = now
-                except (RequestException, ValueError, KeyError):  # pragma: no cover
+                except (RequestException, ValueError, KeyError, TypeError):  # pragma: no cover
                     if cached_fee_hour is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (hour) of {}'.format(DEFAULT_FEE_HOUR)
-- 
2.43.0


From 52be3eaeef3afe91203b60aebf365859ad4c955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:31 +0000
Subject: [PATCH 26/35] fix: Blockstream client lists unconfirmed transactions
 first

get_transactions() is documented to list transactions from newest to
oldest, but the Blockstream client put unconfirmed ones last.
---
 bit/network/services.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index f91b6f3..841ecf7 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -399,9 +399,8 @@ class BlockstreamAPI:
             response = r.json()
             total_txs = len(response)
 
-        transactions.extend(unconfirmed)
-
-        return transactions
+        # Unconfirmed transactions are the newest ones.
+        return unconfirmed + transactions
 
     @classmethod
     def get_transactions_testnet(cls, address):
@@ -446,9 +445,8 @@ class BlockstreamAPI:
             response = r.json()
             total_txs = len(response)
 
-        transactions.extend(unconfirmed)
-
-        return transactions
+        # Unconfirmed transactions are the newest ones.
+        return unconfirmed + transactions
 
     @classmethod
     def get_transaction_by_id(cls, txid):
-- 
2.43.0


From aee5e0757319118ff089d7c3ccedc19dfb4c50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:52 +0000
Subject: [PATCH 27/35] fix: bound the time of rate and fee requests

Without a timeout a silent rate or fee server blocked the caller forever
and the next rate provider (or the last known fee) was never used.
---
 bit/network/fees.py  | 7 ++++---
 bit/network/rates.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index a4919c4..0a5f7f1 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -9,6 +9,7 @@ from requests.exceptions import RequestException
 DEFAULT_FEE_FAST = 72
 DEFAULT_FEE_HOUR = 62
 DEFAULT_CACHE_TIME = 60 * 10
+REQUEST_TIMEOUT = 10
 URL = 'https://mempool.space/api/v1/fees/recommended'
 
 
@@ -29,7 +30,7 @@ def get_fee(fast=True):
     :type fast: ``bool``
     :rtype: ``int``
     """
-    return requests.get(URL).json()['fastestFee' if fast else 'hourFee']
+    return requests.get(URL, timeout=REQUEST_TIMEOUT).json()['fastestFee' if fast else 'hourFee']
 
 
 def get_fee_local_cache(f):
@@ -49,7 +50,7 @@ def get_fee_local_cache(f):
 
             if not cached_fee_fast or now - fast_last_update > DEFAULT_CACHE_TIME:
                 try:
-                    request = requests.get(URL)
+                    request = requests.get(URL, timeout=REQUEST_TIMEOUT)
                     # If we have a non 2XX status code, raise HTTPError.
                     request.raise_for_status()
                     # Otherwise, try to parse json as normal.
@@ -73,7 +74,7 @@ def get_fee_local_cache(f):
 
             if not cached_fee_hour or now - hour_last_update > DEFAULT_CACHE_TIME:
                 try:
-                    request = requests.get(URL)
+                    request = requests.get(URL, timeout=REQUEST_TIMEOUT)
                     # If we have a non 2XX status code, raise HTTPError.
                     request.raise_for_status()
                     # Otherwise, try to parse json as normal.
diff --git a/bit/network/rates.py b/bit/network/rates.py
index cc9222c..08078f7 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -9,6 +9,7 @@ from bit.constants import SATOSHI, uBTC, mBTC, BTC
 from bit.utils import Decimal
 
 DEFAULT_CACHE_TIME = 60
+REQUEST_TIMEOUT = 10
 
 # Constant for use in deriving exchange
 # rates when given in terms of 1 BTC.
@@ -106,7 +107,7 @@ class BitpayRates:
     @classmethod
     def currency_to_satoshi(cls, currency):
         headers = {"x-accept-version": "2.0.0", "Accept": "application/json"}
-        r = requests.get(cls.SINGLE_RATE + currency, headers=headers)
+        r = requests.get(cls.SINGLE_RATE + currency, headers=headers, timeout=REQUEST_TIMEOUT)
         r.raise_for_status()
         rate = r.json()['data']['rate']
         return int(ONE / Decimal(rate) * BTC)
@@ -201,7 +202,7 @@ class BlockchainRates:
 
     @classmethod
     def currency_to_satoshi(cls, currency):
-        r = requests.get(cls.SINGLE_RATE.format(currency))
+        r = requests.get(cls.SINGLE_RATE.format(currency), timeout=REQUEST_TIMEOUT)
         r.raise_for_status()
         rate = r.text
         return int(Decimal(rate) * BTC)
-- 
2.43.0


From 7f6ce604cd69d17dce61ee5f912c6ed72c04fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:41 +0000
Subject: [PATCH 28/35] fix: refuse truncated transactions and transactions
 followed by other data

deserialize() silently accepted a transaction whose end was missing (the last
fields were read short) or that was followed by other bytes (which were
dropped), so that sign_transaction() signed and returned something that is
not the transaction it was given, or no transaction at all.
---
 bit/transaction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 1270227..62cd010 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -366,6 +366,10 @@ def deserialize(tx):
                 witness += w
             inputs[i].witness = witness
 
+    # A truncated transaction runs out of data here, any excess is no part of it.
+    if len(tx) != 4:
+        raise ValueError('The transaction is malformed: truncated or followed by other data.')
+
     locktime, _ = read_bytes(tx, 4)
 
     txobj = TxObj(version, inputs, outputs, locktime)
-- 
2.43.0


From ee61ddcb7f901e440e7cb2098ef9b6bef7a6b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:33 +0000
Subject: [PATCH 29/35] fix: refuse a WIF whose payload is not exactly one key

---
 bit/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index d157fce..4e10292 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -93,6 +93,9 @@ def wif_to_bytes(wif):
     else:
         private_key, compressed = private_key[1:], False
 
+    if len(private_key) != 32:
+        raise ValueError('{} is an invalid length for a private key.'.format(len(private_key)))
+
     return private_key, compressed, version
 
 
-- 
2.43.0


From 9149d0d75ae5aeb6ce98bc9349e3a0eb7498a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:30 +0000
Subject: [PATCH 30/35] fix: currency conversions do not depend on the caller's
 decimal context

---
 bit/network/rates.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index 08078f7..81a9b9d 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -1,5 +1,5 @@
 from collections import OrderedDict
-from decimal import ROUND_DOWN
+from decimal import Context, DivisionByZero, InvalidOperation, Overflow, ROUND_DOWN, ROUND_HALF_EVEN, localcontext
 from functools import wraps
 from time import time
 
@@ -15,6 +15,21 @@ REQUEST_TIMEOUT = 10
 # rates when given in terms of 1 BTC.
 ONE = Decimal(1)
 
+# Conversions must not depend on the decimal context of the application.
+CONTEXT = Context(
+    prec=28, rounding=ROUND_HALF_EVEN, Emin=-999999, Emax=999999, traps=[DivisionByZero, InvalidOperation, Overflow]
+)
+
+
+def own_context(f):
+    @wraps(f)
+    def wrapper(*args, **kwargs):
+        with localcontext(CONTEXT):
+            return f(*args, **kwargs)
+
+    return wrapper
+
+
 SUPPORTED_CURRENCIES = OrderedDict(
     [
         ('satoshi', 'Satoshi'),
@@ -582,6 +597,7 @@ EXCHANGE_RATES = {
 }
 
 
+@own_context
 def currency_to_satoshi(amount, currency):
     """Converts a given amount of currency to the equivalent number of
     satoshi. The amount can be either an int, float, or string as long as
@@ -629,6 +645,7 @@ def currency_to_satoshi_local_cached():
     pass  # pragma: no cover
 
 
+@own_context
 def currency_to_satoshi_cached(amount, currency):
     """Converts a given amount of currency to the equivalent number of
     satoshi. The amount can be either an int, float, or string as long as
@@ -643,6 +660,7 @@ def currency_to_satoshi_cached(amount, currency):
     return currency_to_satoshi_local_cached(amount, currency)
 
 
+@own_context
 def satoshi_to_currency(num, currency):
     """Converts a given number of satoshi to another currency as a formatted
     string rounded down to the proper number of decimal places.
@@ -660,6 +678,7 @@ def satoshi_to_currency(num, currency):
     )
 
 
+@own_context
 def satoshi_to_currency_cached(num, currency):
     """Converts a given number of satoshi to another currency as a formatted
     string rounded down to the proper number of decimal places. Results are
-- 
2.43.0


From db2ae7889be49faa3a792066f63f88073588d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:24 +0000
Subject: [PATCH 31/35] fix: log through the library's own loggers, so that no
 handler is installed behind the application's back

---
 bit/network/fees.py     | 10 ++++++----
 bit/network/services.py |  4 +++-
 bit/transaction.py      |  4 +++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 0a5f7f1..cd913f0 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -5,6 +5,8 @@ from time import time
 import requests
 from requests.exceptions import RequestException
 
+logger = logging.getLogger(__name__)
+
 # Default fees last updated 2019-04-02
 DEFAULT_FEE_FAST = 72
 DEFAULT_FEE_HOUR = 62
@@ -58,12 +60,12 @@ def get_fee_local_cache(f):
                     fast_last_update = now
                 except (RequestException, ValueError, KeyError, TypeError):  # pragma: no cover
                     if cached_fee_fast is None:
-                        logging.warning(
+                        logger.warning(
                             'Connection to fee API failed, returning default fee (fast) of {}'.format(DEFAULT_FEE_FAST)
                         )
                         return DEFAULT_FEE_FAST
                     else:
-                        logging.warning('Connection to fee API failed, returning cached fee (fast).')
+                        logger.warning('Connection to fee API failed, returning cached fee (fast).')
                         return cached_fee_fast
 
             return cached_fee_fast
@@ -82,12 +84,12 @@ def get_fee_local_cache(f):
                     hour_last_update = now
                 except (RequestException, ValueError, KeyError, TypeError):  # pragma: no cover
                     if cached_fee_hour is None:
-                        logging.warning(
+                        logger.warning(
                             'Connection to fee API failed, returning default fee (hour) of {}'.format(DEFAULT_FEE_HOUR)
                         )
                         return DEFAULT_FEE_HOUR
                     else:
-                        logging.warning('Connection to fee API failed, returning cached fee (hour).')
+                        logger.warning('Connection to fee API failed, returning cached fee (hour).')
                         return cached_fee_hour
 
             return cached_fee_hour
diff --git a/bit/network/services.py b/bit/network/services.py
index 841ecf7..3521d88 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -9,6 +9,8 @@ from bit.exceptions import BitcoinNodeException, ExcessiveAddress
 from bit.transaction import address_to_scriptpubkey
 from bit.utils import bytes_to_hex
 
+logger = logging.getLogger(__name__)
+
 DEFAULT_TIMEOUT = 10
 
 
@@ -75,7 +77,7 @@ class RPCHost:
         try:
             _ = self.sendrawtransaction(tx_hex)
         except BitcoinNodeException as e:
-            logging.warning(e)
+            logger.warning(e)
             return False
         return True
 
diff --git a/bit/transaction.py b/bit/transaction.py
index 62cd010..d6988ba 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -49,6 +49,8 @@ from bit.constants import (
     MESSAGE_LIMIT,
 )
 
+logger = logging.getLogger(__name__)
+
 
 class TxIn:
     __slots__ = ('script_sig', 'script_sig_len', 'txid', 'txindex', 'witness', 'amount', 'sequence', 'segwit_input')
@@ -196,7 +198,7 @@ def estimate_tx_fee(in_size, n_in, out_size, n_out, satoshis, segwit=False):
 
     estimated_fee = estimated_size * satoshis
 
-    logging.debug('Estimated fee: {} satoshis for {} bytes'.format(estimated_fee, estimated_size))
+    logger.debug('Estimated fee: {} satoshis for {} bytes'.format(estimated_fee, estimated_size))
 
     return estimated_fee
 
-- 
2.43.0


From e86b30c5e7c4002bac3eba9d1df2dde5ac24df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:43 +0000
Subject: [PATCH 32/35] fix: a key listed more than once in a multisig contract
 signs for each of its entries

---
 bit/transaction.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index d6988ba..22bc31c 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -665,8 +665,6 @@ def sign_tx(private_key, tx, *, unspents):
 
             script_blob = b''
             sigs = {}
-            # Initial number of witness items (OP_0 + one signature + redeemscript).
-            witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
                 # Total number of witness items when partially or fully signed:
@@ -679,23 +677,26 @@ def sign_tx(private_key, tx, *, unspents):
                             # If we already found a valid signature for pubkey
                             # we just overwrite it and don't care.
                             sigs[pub] = sig
-                if len(sigs) >= private_key.m:
+                if sum(pub in sigs for pub in private_key.public_keys) >= private_key.m:
                     raise ValueError('Transaction is already signed with sufficiently needed signatures.')
 
             sigs[public_key] = signature
 
+            # Sorting the signatures according to the public-key list, a key that
+            # is listed several times signs for each of its entries:
+            signatures = [sigs[pub] for pub in private_key.public_keys if pub in sigs][: private_key.m]
+
             if input_script_field[i]:
                 # Bitcoin Core convention: Every missing signature is denoted
                 # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sigs))
+                script_blob += b'\x00' * (private_key.m - len(signatures))
+            else:
+                witness_count = len(signatures) + 2
 
             witness = b''
-            # Sort ingthe signatures according to the public-key list:
-            for pub in private_key.public_keys:
-                if pub in sigs:
-                    sig = sigs[pub]
-                    length = int_to_varint(len(sig)) if segwit_input else script_push(len(sig))
-                    witness += length + sig
+            for sig in signatures:
+                length = int_to_varint(len(sig)) if segwit_input else script_push(len(sig))
+                witness += length + sig
 
             script_sig = b'\x22' + private_key.segwit_scriptcode
 
-- 
2.43.0


From 33db52834cf30637c35c1019a8af7dc48945a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 33/35] fix: an answer of the fee service without a usable fee
 does not replace the cached or default fee

---
 bit/network/fees.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index cd913f0..7e81556 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -35,6 +35,12 @@ def get_fee(fast=True):
     return requests.get(URL, timeout=REQUEST_TIMEOUT).json()['fastestFee' if fast else 'hourFee']
 
 
+def usable(fee):
+    if not 0 < fee < float('inf'):
+        raise ValueError('{} is no fee.'.format(fee))
+    return fee
+
+
 def get_fee_local_cache(f):
 
     cached_fee_fast = None
@@ -56,7 +62,7 @@ def get_fee_local_cache(f):
                     # If we have a non 2XX status code, raise HTTPError.
                     request.raise_for_status()
                     # Otherwise, try to parse json as normal.
-                    cached_fee_fast = request.json()['fastestFee']
+                    cached_fee_fast = usable(request.json()['fastestFee'])
                     fast_last_update = now
                 except (RequestException, ValueError, KeyError, TypeError):  # pragma: no cover
                     if cached_fee_fast is None:
@@ -80,7 +86,7 @@ def get_fee_local_cache(f):
                     # If we have a non 2XX status code, raise HTTPError.
                     request.raise_for_status()
                     # Otherwise, try to parse json as normal.
-                    cached_fee_hour = request.json()['hourFee']
+                    cached_fee_hour = usable(request.json()['hourFee'])
                     hour_last_update = now
                 except (RequestException, ValueError, KeyError, TypeError):  # pragma: no cover
                     if cached_fee_hour is None:
-- 
2.43.0


From 0a7e2b6f0dbce8274e850c06c3a699d8f1e9abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:03 +0000
Subject: [PATCH 34/35] fix: fail over when a provider's answer is cut off or
 not JSON

---
 bit/network/rates.py    | 2 +-
 bit/network/services.py | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index 81a9b9d..f7b32ec 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -312,7 +312,7 @@ class RatesAPI:
     number of satoshi.
     """
 
-    IGNORED_ERRORS = (requests.exceptions.ConnectionError, requests.exceptions.HTTPError, requests.exceptions.Timeout)
+    IGNORED_ERRORS = (requests.exceptions.RequestException,)
 
     USD_RATES = [BitpayRates.usd_to_satoshi, BlockchainRates.usd_to_satoshi]
     EUR_RATES = [BitpayRates.eur_to_satoshi, BlockchainRates.eur_to_satoshi]
diff --git a/bit/network/services.py b/bit/network/services.py
index 3521d88..76022af 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -474,7 +474,7 @@ class BlockstreamAPI:
         r_block = requests.get(cls.MAIN_ENDPOINT + 'blocks/tip/height', timeout=DEFAULT_TIMEOUT)
         if r_block.status_code != 200:  # pragma: no cover
             raise ConnectionError
-        block_height = int(r_block.text)
+        block_height = r_block.json()
 
         r = requests.get(cls.MAIN_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
@@ -506,7 +506,7 @@ class BlockstreamAPI:
         r_block = requests.get(cls.TEST_ENDPOINT + 'blocks/tip/height', timeout=DEFAULT_TIMEOUT)
         if r_block.status_code != 200:  # pragma: no cover
             raise ConnectionError
-        block_height = int(r_block.text)
+        block_height = r_block.json()
 
         r = requests.get(cls.TEST_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
@@ -991,9 +991,7 @@ class SmartbitAPI:
 class NetworkAPI:
     IGNORED_ERRORS = (
         ConnectionError,
-        requests.exceptions.ConnectionError,
-        requests.exceptions.Timeout,
-        requests.exceptions.ReadTimeout,
+        requests.exceptions.RequestException,
         ExcessiveAddress,
     )
 
-- 
2.43.0


From 8eedb331d71f4349e3db85692e49ee5373711df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 35/35] fix: rates are not cut to whole satoshis, so currencies
 worth less than one can be converted

---
 bit/network/rates.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index f7b32ec..0a897b3 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -125,7 +125,7 @@ class BitpayRates:
         r = requests.get(cls.SINGLE_RATE + currency, headers=headers, timeout=REQUEST_TIMEOUT)
         r.raise_for_status()
         rate = r.json()['data']['rate']
-        return int(ONE / Decimal(rate) * BTC)
+        return ONE / Decimal(rate) * BTC
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -220,7 +220,7 @@ class BlockchainRates:
         r = requests.get(cls.SINGLE_RATE.format(currency), timeout=REQUEST_TIMEOUT)
         r.raise_for_status()
         rate = r.text
-        return int(Decimal(rate) * BTC)
+        return Decimal(rate) * BTC
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -635,7 +635,7 @@ def currency_to_satoshi_local_cache(f):
             cached_rate.satoshis = EXCHANGE_RATES[currency]()
             cached_rate.last_update = now
 
-        return int(cached_rate.satoshis * Decimal(amount))
+        return cached_rate.satoshis * Decimal(amount)
 
     return wrapper
 
@@ -657,7 +657,7 @@ def currency_to_satoshi_cached(amount, currency):
     :type currency: ``str``
     :rtype: ``int``
     """
-    return currency_to_satoshi_local_cached(amount, currency)
+    return int(currency_to_satoshi_local_cached(amount, currency))
 
 
 @own_context
@@ -691,7 +691,7 @@ def satoshi_to_currency_cached(num, currency):
     :rtype: ``str``
     """
     return '{:f}'.format(
-        Decimal(num / Decimal(currency_to_satoshi_cached(1, currency)))
+        Decimal(num / Decimal(currency_to_satoshi_local_cached(1, currency)))
         .quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN)
         .normalize()
     )
-- 
2.43.0

