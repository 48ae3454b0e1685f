From 3ad257691068d1400a145c5709e7be8ee2ecf90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 01/28] fix: hash update() drops the pending buffer when the
 data ends on a block boundary

The stale tail was absorbed again by the next update() or by the digest.
---
 gostcrypto/gosthash/gost_34_11_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gosthash/gost_34_11_2012.py b/gostcrypto/gosthash/gost_34_11_2012.py
index c64e34a..264cde5 100755
--- a/gostcrypto/gosthash/gost_34_11_2012.py
+++ b/gostcrypto/gosthash/gost_34_11_2012.py
@@ -862,6 +862,8 @@ class GOST34112012:
         self._pad_block_size = _BLOCK_SIZE - len(data) % _BLOCK_SIZE
         if self._pad_block_size < _BLOCK_SIZE:
             self._buff = data[-(_BLOCK_SIZE - self._pad_block_size):]
+        else:
+            self._buff = bytearray(b'')
 
     def hash_final(self) -> None:
         """Complete the hash calculation after the data update."""
-- 
2.43.0


From 0428e96d902894d5cd89d7d4e41fe918cd10ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:06 +0000
Subject: [PATCH 02/28] fix: HMAC digest without a preceding update() absorbs
 the inner key

The HMAC of the empty message (or after reset()) omitted the inner key block.
---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 8525cf3..230093a 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -176,7 +176,10 @@ class R5011132016:
             HMAC message authentication code as a byte object.
         """
         fin_hasher_obj = GOST34112012(self._hasher_obj.name, data=bytearray(b''))
-        fin_hasher_obj.update(add_xor(self._key, _O_PAD) + self._hasher_obj.digest())
+        hasher_obj = self._hasher_obj.copy()
+        if self._counter == 0:
+            hasher_obj.update(add_xor(self._key, _I_PAD))
+        fin_hasher_obj.update(add_xor(self._key, _O_PAD) + hasher_obj.digest())
         result = fin_hasher_obj.digest()
         fin_hasher_obj.reset()
         return result
-- 
2.43.0


From 02534b4991522ac8c669a44257ae828181784e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 03/28] fix: HMAC keeps its own copy of a 64-byte key

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 230093a..3f6ece9 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -122,7 +122,7 @@ class R5011132016:
             self._key = key + add
             self._key = bytearray(self._key)
         elif len(key) == _KEY_SIZE:
-            self._key = key
+            self._key = bytearray(key)
         key = bytearray(len(key))
         if name == 'HMAC_GOSTR3411_2012_256':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.1')
-- 
2.43.0


From 396cf634bbbcd4fdce58c328c224af729a7006ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 04/28] fix: CTR counter increment propagates the carry

The counter wrapped after 256 blocks and repeated the key stream.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b9fe0b6..19d0aa1 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -842,8 +842,8 @@ class GOST34132015ctr(GOST34132015Cipher):
         internal = 0
         bit = bytearray(self.block_size)
         bit[self.block_size - 1] = 0x01
-        for i in range(self.block_size):
-            internal = ctr[i] + bit[i] + (internal << 8)
+        for i in range(self.block_size - 1, -1, -1):
+            internal = ctr[i] + bit[i] + (internal >> 8)
             ctr[i] = internal & 0xff
         return ctr
 
-- 
2.43.0


From 2e483750c7dc8a3a3f69211435ce68f5a29fc06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 05/28] fix: MAC accepts messages and pieces shorter than one
 block

update() failed with IndexError when less than one block was pending.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 19d0aa1..13c0648 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -984,6 +984,8 @@ class GOST34132015mac(GOST34132015):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid text data')
         data = self._iter_buf + data
+        if len(data) == 0:
+            return
         block = bytearray()
         prev_block = self._cur_mac
         for i in range(0, self._get_num_block(data) - 1):
@@ -1001,11 +1003,13 @@ class GOST34132015mac(GOST34132015):
         else:
             begin_data = len(data) - 2 * self.block_size + self._get_pad_size(data)
             end_data = len(data) - self.block_size + self._get_pad_size(data)
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[begin_data:end_data])
+            block = prev_block
+            if end_data > 0:
+                block = (
+                    self._cipher_obj.encrypt(
+                        add_xor(prev_block, data[begin_data:end_data])
+                    )
                 )
-            )
             self._cur_mac = block
             self._prev_mac = block
             self._iter_buf = data[len(data) - self.block_size + self._get_pad_size(data):]
@@ -1017,7 +1021,7 @@ class GOST34132015mac(GOST34132015):
             final_key = self._key_1
         else:
             final_key = self._key_2
-            self._fin_buff = self._set_pad_mode_3(self._fin_buff[self.block_size:])
+            self._fin_buff = self._set_pad_mode_3(self._iter_buf)
         result = bytearray()
         result = self._cipher_obj.encrypt(
             add_xor(add_xor(self._fin_buff, self._prev_mac), final_key)
-- 
2.43.0


From 7e4f835036315c42ab6da1e8f6fa55cba97782d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 06/28] fix: OID arcs of 2^14 and more set the continuation bit
 on every byte but the last

---
 gostcrypto/gostoid/oid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b588b47..8bd804a 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -101,9 +101,9 @@ def _int_to_octet(value: int) -> bytearray:
         return bytearray(value.to_bytes(1, byteorder='big'))
     result = bytearray(_len_int(value, 7))
     for i in range(_len_int(value, 7) - 1, -1, -1):
-        result[i] = value & 0x7F
+        result[i] = (value & 0x7F) | 0x80
         value = value >> 7
-    result[0] = result[0] | 0x80
+    result[-1] = result[-1] & 0x7F
     return result
 
 
-- 
2.43.0


From 94552a483ea8e71d8a673d594fe70dadbfdd3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:24 +0000
Subject: [PATCH 07/28] fix: Latin letter in the registered name of
 id-tc26-gost-3410-12-512-paramSetC

---
 gostcrypto/gostoid/oid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 8bd804a..d48f486 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -66,7 +66,7 @@ OBJECT_IDENTIFIER_TC26 = {
     '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
     '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
     '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
-    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetС',
+    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
     '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
     '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
     '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
-- 
2.43.0


From bcb015fa5474fb3650dc2bc6afca68d99b124a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 08/28] fix: reject an empty initialization vector

It was accepted and the first encryption failed with IndexError.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 13c0648..e4c64ad 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -456,7 +456,7 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
         """
         GOST34132015Cipher.__init__(self, algorithm, key)
         check_init_vect = isinstance(init_vect, (bytes, bytearray))
-        if (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
+        if (not check_init_vect) or len(init_vect) == 0 or (len(init_vect) % self.block_size) != 0:
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid initialization vector value')
         self._init_vect = init_vect
-- 
2.43.0


From 1d565a2c6f597c9fcd63592ee77154b548b03510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:30 +0000
Subject: [PATCH 09/28] fix: zero_fill returns zero bytes of the same length

---
 gostcrypto/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/utils/utils.py b/gostcrypto/utils/utils.py
index b698a01..1a2256d 100755
--- a/gostcrypto/utils/utils.py
+++ b/gostcrypto/utils/utils.py
@@ -77,7 +77,7 @@ def zero_fill(value: bytearray) -> bytearray:
     """
     result = b''
     if isinstance(value, (bytes, bytearray)):
-        result = b'/x00' * len(value)
+        result = b'\x00' * len(value)
         result = bytearray(result)
     return result
 
-- 
2.43.0


From 36de047a442e9a1155520b1287999f2c77f13cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 10/28] fix: random counter limit matches the size of the
 counter field

The limit was never reached and the counter overflowed into the seed.
---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index 51893c7..b7c1a55 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -90,7 +90,7 @@ class R132356510062017:
             self._rand_u = bytearray(self._rand_u)
         self._q = rand_size // _SIZE_H
         self._r = rand_size % _SIZE_H
-        self._limit = 2 ** ((_SIZE_M - self._size_s) * 8)
+        self._limit = 2 ** ((_SIZE_M - self._size_s - 1) * 8) - 1
         self._hash_obj = GOST34112012('streebog512', data=bytearray(b''))
 
     def __del__(self) -> None:
-- 
2.43.0


From 8198051475602dd9bd3306fbd72b4e7ec2ff7821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:39 +0000
Subject: [PATCH 11/28] fix: PBKDF rejects an over-long password with its own
 error

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 9c50f59..1a7f962 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -72,7 +72,7 @@ class R5011112016:
             salt: Random value.
             iterations: Number of iterations.
         """
-        if not isinstance(password, (bytes, bytearray)):
+        if (not isinstance(password, (bytes, bytearray))) or len(password) > _BLOCK_SIZE:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid password value')
         self._password = bytearray(password)
         self._salt = salt
-- 
2.43.0


From d2abc35bd77fc085960e15c8941520991770379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 12/28] fix: PBKDF clear() wipes the keyed HMAC and tolerates a
 rejected construction

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 1a7f962..5d8e409 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -165,7 +165,10 @@ class R5011112016:
 
     def clear(self):
         """Сlear the password value."""
-        self._password = zero_fill(self._password)
+        if hasattr(self, '_password'):
+            self._password = zero_fill(self._password)
+        if hasattr(self, '_hmac_obj'):
+            self._hmac_obj.clear()
 
     @property
     def salt(self):
-- 
2.43.0


From a2dbf160f8c16c764774212ea9fad140a5099e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 13/28] fix: PBKDF salt property returns a copy

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 5d8e409..bf008c1 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -173,7 +173,7 @@ class R5011112016:
     @property
     def salt(self):
         """Return a random value (salt)."""
-        return self._salt
+        return bytearray(self._salt)
 
 
 class GOSTPBKDFError(Exception):
-- 
2.43.0


From b6bd8db85a783fc4da1840213f94924323fef24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 14/28] fix: CTR counter property returns a copy

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index e4c64ad..72b4202 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -850,7 +850,7 @@ class GOST34132015ctr(GOST34132015Cipher):
     @property
     def counter(self) -> bytearray:
         """Return the value of the block counter."""
-        return self._counter
+        return bytearray(self._counter)
 
     def encrypt(self, data: bytearray) -> bytearray:
         """
-- 
2.43.0


From acfed1b65a38e5995807a4fbb7b3331696e09ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 15/28] fix: MAC clear() wipes the derived subkeys

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 72b4202..e0d6df3 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1075,6 +1075,13 @@ class GOST34132015mac(GOST34132015):
         """
         return self.digest(mac_size).hex()
 
+    def clear(self) -> None:
+        """Сlearing the values of iterative encryption keys and MAC keys."""
+        super().clear()
+        if hasattr(self, '_key_1'):
+            self._key_1 = zero_fill(self._key_1)
+            self._key_2 = zero_fill(self._key_2)
+
 
 class GOSTCipherError(Exception):
     """
-- 
2.43.0


From 2e627678b84e89da8a66243c3a023b235d02a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:57 +0000
Subject: [PATCH 16/28] fix: reject a non-positive MAC size

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index e0d6df3..e4a9d4f 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1048,7 +1048,7 @@ class GOST34132015mac(GOST34132015):
               size.
         """
         temp = deepcopy(self)
-        if mac_size > temp.block_size:
+        if mac_size < 1 or mac_size > temp.block_size:
             temp.clear()
             raise GOSTCipherError('GOSTCipherError: invalid message authentication code size')
         return temp.mac_final()[0:mac_size:]
-- 
2.43.0


From e3b213139c70c1be05a8cfeadf9b17c0a39ed763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 17/28] fix: reject a non-positive size of the derived key

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index bf008c1..5110485 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -141,7 +141,7 @@ class R5011112016:
             GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key'):
               If the size of the derived key is incorrect.
         """
-        if dk_len > (2 ** 32 - 1) * 64:
+        if dk_len < 1 or dk_len > (2 ** 32 - 1) * 64:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key')
         return self._calculate_pbkdf(dk_len)[:dk_len]
 
@@ -159,7 +159,7 @@ class R5011112016:
             GOSTPBKDFError(GOSTPBKDFError: 'invalid size of the derived key'):
               If the size of the derived key is incorrect.
         """
-        if dk_len > (2 ** 32 - 1) * 64:
+        if dk_len < 1 or dk_len > (2 ** 32 - 1) * 64:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key')
         return self._calculate_pbkdf(dk_len)[:dk_len].hex()
 
-- 
2.43.0


From 2c0915d93568e54e7c40c7e62dff27efc1d9a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 18/28] fix: clearing a partly built block cipher does not fail

---
 gostcrypto/gostcipher/gost_34_12_2015.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_12_2015.py b/gostcrypto/gostcipher/gost_34_12_2015.py
index 6c3da09..79d74ae 100755
--- a/gostcrypto/gostcipher/gost_34_12_2015.py
+++ b/gostcrypto/gostcipher/gost_34_12_2015.py
@@ -569,7 +569,7 @@ class GOST34122015Kuznechik:
 
     def clear(self) -> None:
         """Сlearing the values of iterative encryption keys."""
-        for i in range(10):
+        for i in range(len(self._cipher_iter_key)):
             self._cipher_iter_key[i] = zero_fill(self._cipher_iter_key[i])
 
 
@@ -783,5 +783,5 @@ class GOST34122015Magma:
 
     def clear(self) -> None:
         """Сlearing the values of iterative encryption keys."""
-        for i in range(32):
+        for i in range(len(self._cipher_iter_key)):
             self._cipher_iter_key[i] = zero_fill(self._cipher_iter_key[i])
-- 
2.43.0


From 4d64daf4aab301ad420c6f681157c483fa4e5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:11 +0000
Subject: [PATCH 19/28] fix: the embedding-degree check of the curve parameters
 takes effect

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index be8eb55..7849328 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -561,7 +561,7 @@ class GOST34102012:
             check_b = 132
         for i in range(1, check_b):
             if self._p ** i % self._q == 1 % self._q:
-                result = result or result
+                result = False
         return result
 
     def _check_q(self) -> bool:
-- 
2.43.0


From 05fa89878a215e5ff35873fe4a0f1cfdaaaedd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 20/28] fix: reject a non-positive modulus or order with the
 documented error

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 7849328..5b8b639 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -529,6 +529,8 @@ class GOST34102012:
         self._y = curve.get('y', 0)
         self._u = curve.get('u', 0)
         self._v = curve.get('v', 0)
+        if self._p < 1 or self._q < 1:
+            raise GOSTSignatureError('GOSTSignatureError: invalid parameters of the elliptic curve')
         self._edvards_to_canonical()
         if not self._check_curve():
             raise GOSTSignatureError('GOSTSignatureError: invalid parameters of the elliptic curve')
-- 
2.43.0


From fb68754104152a24a491ace11c149bb3fadb2d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 21/28] fix: signing rejects a zero random value instead of
 looping forever

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 5b8b639..d712666 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -645,7 +645,7 @@ class GOST34102012:
 
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
-        while bytearray_to_int(rand_k) >= self._q:
+        while not 0 < bytearray_to_int(rand_k) < self._q:
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
@@ -692,7 +692,7 @@ class GOST34102012:
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        if bytearray_to_int(rand_k) >= self._q:
+        if not 0 < bytearray_to_int(rand_k) < self._q:
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
         while compare_to_zero(int_to_bytearray(sign_s, self._size)):
-- 
2.43.0


From 9403dbd2e431119a0f9f9a423b758ffea567914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:22 +0000
Subject: [PATCH 22/28] fix: signing draws a new random value when r or s is
 zero

The retry loops reused the same value and never ended; a supplied value that
leads to such a signature is rejected.
---
 gostcrypto/gostsignature/gost_34_10_2012.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index d712666..8c90955 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -687,7 +687,8 @@ class GOST34102012:
         sign_r = 0
         sign_s = 0
         sign_k = 0
-        if rand_k == bytearray(b''):
+        is_generated = rand_k == bytearray(b'')
+        if is_generated:
             rand_k = self._get_rand_k()
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
@@ -696,7 +697,13 @@ class GOST34102012:
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
         while compare_to_zero(int_to_bytearray(sign_s, self._size)):
+            sign_r = 0
             while compare_to_zero(int_to_bytearray(sign_r, self._size)):
+                if sign_k != 0:
+                    if not is_generated:
+                        private_key = zero_fill(private_key)
+                        raise GOSTSignatureError('GOSTSignatureError: invalid random value')
+                    rand_k = self._get_rand_k()
                 sign_k = bytearray_to_int(rand_k)
                 sign_c = self._mul_point(sign_k)
                 sign_r = sign_c[0] % self._q
-- 
2.43.0


From a43c8af941a5841f1ff59e4c3f563aa114645def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:25 +0000
Subject: [PATCH 23/28] fix: reject a private key that is zero modulo the group
 order

A zero scalar made the bit loop run forever; other multiples gave a wrong point.
---
 gostcrypto/gostsignature/gost_34_10_2012.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 8c90955..68f7593 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -683,6 +683,8 @@ class GOST34102012:
             raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
+        if bytearray_to_int(private_key) % self._q == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         sign_e = self._set_e(digest)
         sign_r = 0
         sign_s = 0
@@ -784,7 +786,9 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key')
-        private_key = bytearray_to_int(private_key)
+        private_key = bytearray_to_int(private_key) % self._q
+        if private_key == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         public_key = self._mul_point(private_key)
         public_key_x = int_to_bytearray(public_key[0], self._size)
         public_key_y = int_to_bytearray(public_key[1], self._size)
-- 
2.43.0


From 1f8eabd02ee73bd0acf52ca6d8be2beeaf35023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 24/28] fix: verify() rejects a public key that is not a point
 of the curve

A key with a zero coordinate was silently replaced by the base point.
---
 gostcrypto/gostsignature/gost_34_10_2012.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 68f7593..542c2e3 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -556,6 +556,12 @@ class GOST34102012:
             result = False
         return result
 
+    def _check_public_key(self, public_key: Tuple[int, int]) -> bool:
+        x_op, y_op = public_key
+        if x_op >= self._p or y_op >= self._p:
+            return False
+        return (y_op * y_op - x_op ** 3 - x_op * self._a - self._b) % self._p == 0
+
     def _check_p(self) -> bool:
         result = True
         check_b = 32
@@ -618,7 +624,7 @@ class GOST34102012:
     def _mul_point(self, mul_value: int, x_op: int = -1,
                    y_op: Any = - 1) -> Tuple[int, int]:
         mul_value = mul_value - 1
-        if x_op > 0 and y_op > 0:
+        if x_op >= 0 and y_op >= 0:
             x_prev = x_op
             y_prev = y_op
         else:
@@ -756,6 +762,8 @@ class GOST34102012:
             bytearray_to_int(public_key[:self._size]),
             bytearray_to_int(public_key[self._size:])
         )
+        if not self._check_public_key(public_key):
+            raise GOSTSignatureError('GOSTSignatureError: invalid public key value')
         sign_r, sign_s = self._get_r_s(signature)
         if not self._verify_step_1(sign_r, sign_s):
             return False
-- 
2.43.0


From 5bf697f70abd1625b5a4607860ea007877f6b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 25/28] fix: verify() rejects when the verification point is
 the point at infinity

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 542c2e3..81b2cd5 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -773,6 +773,8 @@ class GOST34102012:
         sign_z_2 = self._q - sign_r * sign_v % self._q
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
+        if sign_p[0] == sign_q[0] and sign_p[1] != sign_q[1]:
+            return False
         sign_c = self._add(sign_p[0], sign_q[0], sign_p[1], sign_q[1])
         sign_r_check = sign_c[0] % self._q
         return compare(int_to_bytearray(sign_r_check, self._size),
-- 
2.43.0


From 3e8974592f628c92d07af59e261b7c9e31226300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 26/28] fix: refuse object identifiers with a negative or
 missing second arc

---
 gostcrypto/gostoid/oid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index d48f486..3888751 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -176,6 +176,8 @@ class ObjectIdentifier:
             result = tuple(int(item) for item in self._oid_str.split('.'))
         except ValueError:
             raise GOSTOIDError('invalid OID value')
+        if len(result) < 2 or min(result) < 0:
+            raise GOSTOIDError('invalid OID value')
         return result
 
     @property
-- 
2.43.0


From f68770c415c0cd966e6f46e1185d72145c015203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:06 +0000
Subject: [PATCH 27/28] fix: verify() rejects when the first multiplier is zero
 instead of looping forever

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 81b2cd5..2190dce 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -771,6 +771,8 @@ class GOST34102012:
         sign_v = self._invert(sign_e, self._q)
         sign_z_1 = sign_s * sign_v % self._q
         sign_z_2 = self._q - sign_r * sign_v % self._q
+        if sign_z_1 == 0:
+            return False
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
         if sign_p[0] == sign_q[0] and sign_p[1] != sign_q[1]:
-- 
2.43.0


From 29bcc55353279a41801dfa597afec88108ec50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:41 +0000
Subject: [PATCH 28/28] fix: verify() refuses public keys of small order on
 curves with a cofactor

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 2190dce..456d0d6 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -560,7 +560,15 @@ class GOST34102012:
         x_op, y_op = public_key
         if x_op >= self._p or y_op >= self._p:
             return False
-        return (y_op * y_op - x_op ** 3 - x_op * self._a - self._b) % self._p == 0
+        if (y_op * y_op - x_op ** 3 - x_op * self._a - self._b) % self._p != 0:
+            return False
+        # a point whose order does not exceed the cofactor is not a multiple of the base point
+        x_next, y_next = x_op, y_op
+        for _ in range(1, min(self._m // self._q, 2 ** (self._size // 16))):
+            if x_next == x_op and (y_next + y_op) % self._p == 0:
+                return False
+            x_next, y_next = self._add(x_next, x_op, y_next, y_op)
+        return True
 
     def _check_p(self) -> bool:
         result = True
-- 
2.43.0

