From 1c555a63b23e9ff99fdd11c19c0b7f62ed842c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 01/27] fix: hash update() keeps a stale buffer when the data
 ends on a block boundary

---
 gostcrypto/gosthash/gost_34_11_2012.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gostcrypto/gosthash/gost_34_11_2012.py b/gostcrypto/gosthash/gost_34_11_2012.py
index c64e34a..972e462 100755
--- a/gostcrypto/gosthash/gost_34_11_2012.py
+++ b/gostcrypto/gosthash/gost_34_11_2012.py
@@ -860,8 +860,7 @@ class GOST34112012:
             self._hash_n = self._hash_add_512(self._hash_n, _V_512)
             self._hash_sigma = self._hash_add_512(self._hash_sigma, block)
         self._pad_block_size = _BLOCK_SIZE - len(data) % _BLOCK_SIZE
-        if self._pad_block_size < _BLOCK_SIZE:
-            self._buff = data[-(_BLOCK_SIZE - self._pad_block_size):]
+        self._buff = data[self._num_block * _BLOCK_SIZE:]
 
     def hash_final(self) -> None:
         """Complete the hash calculation after the data update."""
-- 
2.43.0


From 376d1692be6b1a42515cfe4a02c983165f1b40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 02/27] fix: zero_fill() fills with the text '/x00' instead of
 zero bytes

---
 gostcrypto/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/utils/utils.py b/gostcrypto/utils/utils.py
index b698a01..1a2256d 100755
--- a/gostcrypto/utils/utils.py
+++ b/gostcrypto/utils/utils.py
@@ -77,7 +77,7 @@ def zero_fill(value: bytearray) -> bytearray:
     """
     result = b''
     if isinstance(value, (bytes, bytearray)):
-        result = b'/x00' * len(value)
+        result = b'\x00' * len(value)
         result = bytearray(result)
     return result
 
-- 
2.43.0


From 82139b95e6bf9d7bb7bdb9fa5467cf5193cdec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 03/27] fix: CTR counter does not carry, the keystream repeats
 after 256 blocks

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b9fe0b6..19d0aa1 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -842,8 +842,8 @@ class GOST34132015ctr(GOST34132015Cipher):
         internal = 0
         bit = bytearray(self.block_size)
         bit[self.block_size - 1] = 0x01
-        for i in range(self.block_size):
-            internal = ctr[i] + bit[i] + (internal << 8)
+        for i in range(self.block_size - 1, -1, -1):
+            internal = ctr[i] + bit[i] + (internal >> 8)
             ctr[i] = internal & 0xff
         return ctr
 
-- 
2.43.0


From 0aa75c3602b10a6112254ae316c1d3a17a624516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 04/27] fix: CBC, CFB and OFB accept an empty initialization
 vector and crash later

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 19d0aa1..ebb070e 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -456,7 +456,7 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
         """
         GOST34132015Cipher.__init__(self, algorithm, key)
         check_init_vect = isinstance(init_vect, (bytes, bytearray))
-        if (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
+        if (not check_init_vect) or not init_vect or (len(init_vect) % self.block_size) != 0:
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid initialization vector value')
         self._init_vect = init_vect
-- 
2.43.0


From 20f999ee29b85e56e7b299435c78e507fb6fe7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 05/27] fix: CTR counter attribute exposes the internal counter
 buffer

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index ebb070e..fca6b2f 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -850,7 +850,7 @@ class GOST34132015ctr(GOST34132015Cipher):
     @property
     def counter(self) -> bytearray:
         """Return the value of the block counter."""
-        return self._counter
+        return bytearray(self._counter)
 
     def encrypt(self, data: bytearray) -> bytearray:
         """
-- 
2.43.0


From e891513f9ae9e4cb8210e9b9bbd04e4d0aad8060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 06/27] fix: MAC update() is wrong for messages and chunks
 shorter than one block

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 41 +++++-------------------
 1 file changed, 8 insertions(+), 33 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index fca6b2f..ef73ad8 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -932,9 +932,7 @@ class GOST34132015mac(GOST34132015):
         super().__init__(algorithm, key)
         value_r = self._cipher_obj.encrypt(bytearray(self._cipher_obj.block_size * b'\x00'))
         self._key_1, self._key_2 = self._get_mac_key(value_r)
-        self._fin_buff = bytearray()
         self._iter_buf = bytearray()
-        self._prev_mac = bytearray(self._cipher_obj.block_size)
         self._cur_mac = bytearray(self._cipher_obj.block_size)
         if data != bytearray(b''):
             self.update(data)
@@ -984,45 +982,22 @@ class GOST34132015mac(GOST34132015):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid text data')
         data = self._iter_buf + data
-        block = bytearray()
-        prev_block = self._cur_mac
-        for i in range(0, self._get_num_block(data) - 1):
-            block = self._cipher_obj.encrypt(add_xor(prev_block, self._get_block(data, i)))
-            prev_block = block
-        if self._get_pad_size(data) == 0:
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[len(data) - self.block_size:len(data)])
-                )
-            )
-            self._cur_mac = block
-            self._prev_mac = prev_block
-            self._iter_buf = bytearray(b'')
-        else:
-            begin_data = len(data) - 2 * self.block_size + self._get_pad_size(data)
-            end_data = len(data) - self.block_size + self._get_pad_size(data)
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[begin_data:end_data])
-                )
+        num_block = max(len(data) - 1, 0) // self.block_size
+        for i in range(num_block):
+            self._cur_mac = self._cipher_obj.encrypt(
+                add_xor(self._cur_mac, self._get_block(data, i))
             )
-            self._cur_mac = block
-            self._prev_mac = block
-            self._iter_buf = data[len(data) - self.block_size + self._get_pad_size(data):]
-        self._fin_buff = data[self.block_size * (self._get_num_block(data) - 1):]
+        self._iter_buf = data[num_block * self.block_size:]
 
     def mac_final(self) -> bytearray:
         """Return the final value of the MAC."""
-        if self._get_pad_size(self._fin_buff) == 0:
+        if self._get_pad_size(self._iter_buf) == 0:
             final_key = self._key_1
         else:
             final_key = self._key_2
-            self._fin_buff = self._set_pad_mode_3(self._fin_buff[self.block_size:])
-        result = bytearray()
-        result = self._cipher_obj.encrypt(
-            add_xor(add_xor(self._fin_buff, self._prev_mac), final_key)
+        return self._cipher_obj.encrypt(
+            add_xor(add_xor(self._set_pad_mode_3(self._iter_buf), self._cur_mac), final_key)
         )
-        return result
 
     def digest(self, mac_size: int) -> bytearray:
         """
-- 
2.43.0


From 3a8540c680ed6d07c471f56611e3b74d2264c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 07/27] fix: MAC digest() accepts a zero or negative code size

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index ef73ad8..52219d1 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1019,7 +1019,7 @@ class GOST34132015mac(GOST34132015):
               size.
         """
         temp = deepcopy(self)
-        if mac_size > temp.block_size:
+        if not 0 < mac_size <= temp.block_size:
             temp.clear()
             raise GOSTCipherError('GOSTCipherError: invalid message authentication code size')
         return temp.mac_final()[0:mac_size:]
-- 
2.43.0


From 40db45a4962159cc8b5524648ed217a3eb955639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 08/27] fix: MAC clear() leaves the key-dependent MAC subkeys
 and state in the object

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 52219d1..e878647 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -937,6 +937,13 @@ class GOST34132015mac(GOST34132015):
         if data != bytearray(b''):
             self.update(data)
 
+    def clear(self) -> None:
+        """Clearing the values of the keys and of the intermediate MAC."""
+        super().clear()
+        for name in ('_key_1', '_key_2', '_cur_mac', '_iter_buf'):
+            if hasattr(self, name):
+                setattr(self, name, zero_fill(getattr(self, name)))
+
     def _set_pad_mode_3(self, data: bytearray) -> bytearray:
         if self._get_pad_size(data) == 0:
             result = data
-- 
2.43.0


From 3044ff33311b1119e101915856769d5b0272d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 09/27] fix: HMAC object shares a 64-byte key buffer with the
 caller

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 8525cf3..9ad8270 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -122,7 +122,7 @@ class R5011132016:
             self._key = key + add
             self._key = bytearray(self._key)
         elif len(key) == _KEY_SIZE:
-            self._key = key
+            self._key = bytearray(key)
         key = bytearray(len(key))
         if name == 'HMAC_GOSTR3411_2012_256':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.1')
-- 
2.43.0


From d32e3980b251b70fc9e7b141bbc75b21a1d999e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 10/27] fix: HMAC of the empty message ignores the inner key
 pad

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 9ad8270..a4d9a18 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -130,7 +130,7 @@ class R5011132016:
         elif name == 'HMAC_GOSTR3411_2012_512':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.2')
             self._hasher_obj = GOST34112012('streebog512', data=bytearray(b''))
-        self._counter = 0
+        self.reset()
         if data != bytearray(b''):
             self.update(data)
 
@@ -160,11 +160,7 @@ class R5011132016:
         """
         if not isinstance(data, (bytes, bytearray)):
             raise GOSTHMACError('GOSTHMACError: invalid data value')
-        self._counter = self._counter + 1
-        if self._counter == 1:
-            self._hasher_obj.update(add_xor(self._key, _I_PAD) + data)
-        elif self._counter != 1:
-            self._hasher_obj.update(data)
+        self._hasher_obj.update(data)
 
     def digest(self) -> bytearray:
         """
@@ -204,12 +200,12 @@ class R5011132016:
     def reset(self) -> None:
         """Reset the values of all class attributes."""
         self._hasher_obj.reset()
-        self._counter = 0
+        self._hasher_obj.update(add_xor(self._key, _I_PAD))
 
     def clear(self) -> None:
         """Сlear the key value."""
-        self._hasher_obj.reset()
         self._key = zero_fill(self._key)
+        self.reset()
 
     @property
     def digest_size(self) -> int:
-- 
2.43.0


From 582720c627e6f186191b52156ae8b13410810737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 11/27] fix: PBKDF reports an over-long password with an
 undocumented exception

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 9c50f59..be70b35 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -72,7 +72,7 @@ class R5011112016:
             salt: Random value.
             iterations: Number of iterations.
         """
-        if not isinstance(password, (bytes, bytearray)):
+        if not isinstance(password, (bytes, bytearray)) or len(password) > _BLOCK_SIZE:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid password value')
         self._password = bytearray(password)
         self._salt = salt
@@ -165,7 +165,8 @@ class R5011112016:
 
     def clear(self):
         """Сlear the password value."""
-        self._password = zero_fill(self._password)
+        if hasattr(self, '_password'):
+            self._password = zero_fill(self._password)
 
     @property
     def salt(self):
-- 
2.43.0


From fc759b40332c4e1d7d4cdf9dbe40e7d3a8d76393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 12/27] fix: PBKDF clear() leaves the password in the HMAC
 object

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index be70b35..6f15bde 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -167,6 +167,8 @@ class R5011112016:
         """Сlear the password value."""
         if hasattr(self, '_password'):
             self._password = zero_fill(self._password)
+        if hasattr(self, '_hmac_obj'):
+            self._hmac_obj.clear()
 
     @property
     def salt(self):
-- 
2.43.0


From 31d4b79292ff917a3ddc5300e29858b4c4765887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 13/27] fix: PBKDF salt attribute exposes the internal salt
 buffer

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 6f15bde..dc5848b 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -173,7 +173,7 @@ class R5011112016:
     @property
     def salt(self):
         """Return a random value (salt)."""
-        return self._salt
+        return bytearray(self._salt)
 
 
 class GOSTPBKDFError(Exception):
-- 
2.43.0


From c533deac233d46ff0e4912ad31fde52e72dff780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 14/27] fix: PRNG counter limit is never reached, the counter
 overflows into the seed

---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index 51893c7..b7c1a55 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -90,7 +90,7 @@ class R132356510062017:
             self._rand_u = bytearray(self._rand_u)
         self._q = rand_size // _SIZE_H
         self._r = rand_size % _SIZE_H
-        self._limit = 2 ** ((_SIZE_M - self._size_s) * 8)
+        self._limit = 2 ** ((_SIZE_M - self._size_s - 1) * 8) - 1
         self._hash_obj = GOST34112012('streebog512', data=bytearray(b''))
 
     def __del__(self) -> None:
-- 
2.43.0


From 97bf837251eb77080813304b5ca0c526a7488cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 15/27] fix: OID arcs of three and more octets lack
 continuation bits

---
 gostcrypto/gostoid/oid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b588b47..b8432d3 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -101,9 +101,9 @@ def _int_to_octet(value: int) -> bytearray:
         return bytearray(value.to_bytes(1, byteorder='big'))
     result = bytearray(_len_int(value, 7))
     for i in range(_len_int(value, 7) - 1, -1, -1):
-        result[i] = value & 0x7F
+        result[i] = 0x80 | (value & 0x7F)
         value = value >> 7
-    result[0] = result[0] | 0x80
+    result[-1] = result[-1] & 0x7F
     return result
 
 
-- 
2.43.0


From 932e44980cc74a4f1e914d78c9239a54ecf547c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 16/27] fix: malformed OID strings are accepted or fail with an
 undocumented exception

---
 gostcrypto/gostoid/oid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b8432d3..f9bd087 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -109,6 +109,8 @@ def _int_to_octet(value: int) -> bytearray:
 
 def _encode_octet(value: tuple) -> bytearray:
     result = bytearray()
+    if len(value) < 2:
+        raise GOSTOIDError('invalid second SID value')
     if value[0] == 0:
         if value[1] < 40:
             first_value = value[1]
@@ -173,6 +175,8 @@ class ObjectIdentifier:
         thrown 'GOSTOIDError('invalid OID value')'.
         """
         try:
+            if not set(self._oid_str) <= set('0123456789.'):
+                raise ValueError
             result = tuple(int(item) for item in self._oid_str.split('.'))
         except ValueError:
             raise GOSTOIDError('invalid OID value')
-- 
2.43.0


From 11c40b55ab20deb623ac91a53dbb1ffc99d2dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 17/27] fix: name of the 512-bit paramSetC OID ends with a
 Cyrillic letter

---
 gostcrypto/gostoid/oid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index f9bd087..687e75d 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -66,7 +66,7 @@ OBJECT_IDENTIFIER_TC26 = {
     '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
     '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
     '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
-    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetС',
+    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
     '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
     '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
     '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
-- 
2.43.0


From 6871cee5d7b35085dd2603e306565250f5d4e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 18/27] fix: elliptic curve check never rejects a curve with a
 small embedding degree

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index be8eb55..7849328 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -561,7 +561,7 @@ class GOST34102012:
             check_b = 132
         for i in range(1, check_b):
             if self._p ** i % self._q == 1 % self._q:
-                result = result or result
+                result = False
         return result
 
     def _check_q(self) -> bool:
-- 
2.43.0


From 657ac6a2a54fb8cc409f540cd6acea5cef841eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 19/27] fix: a public key with a zero coordinate is replaced by
 the base point

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 7849328..053fb5a 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -616,7 +616,7 @@ class GOST34102012:
     def _mul_point(self, mul_value: int, x_op: int = -1,
                    y_op: Any = - 1) -> Tuple[int, int]:
         mul_value = mul_value - 1
-        if x_op > 0 and y_op > 0:
+        if x_op >= 0 and y_op >= 0:
             x_prev = x_op
             y_prev = y_op
         else:
-- 
2.43.0


From 237bb5970ce0047c283ffc7983309611d97d9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 20/27] fix: point addition has no point at infinity, verify()
 accepts forged signatures

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 053fb5a..a7fc506 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -594,7 +594,14 @@ class GOST34102012:
             result = result + n_mod
         return result
 
-    def _add(self, x_1: int, x_2: int, y_1: int, y_2: int) -> Tuple[int, int]:
+    # The point at infinity is represented as (None, None).
+    def _add(self, x_1: Any, x_2: Any, y_1: Any, y_2: Any) -> Tuple[Any, Any]:
+        if x_1 is None:
+            return x_2, y_2
+        if x_2 is None:
+            return x_1, y_1
+        if (x_1 - x_2) % self._p == 0 and (y_1 + y_2) % self._p == 0:
+            return None, None
         compare_x = compare(int_to_bytearray(x_1, self._size), int_to_bytearray(x_2, self._size))
         compare_y = compare(int_to_bytearray(y_1, self._size), int_to_bytearray(y_2, self._size))
         if compare_x and compare_y:
@@ -755,6 +762,8 @@ class GOST34102012:
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
         sign_c = self._add(sign_p[0], sign_q[0], sign_p[1], sign_q[1])
+        if sign_c[0] is None:
+            return False
         sign_r_check = sign_c[0] % self._q
         return compare(int_to_bytearray(sign_r_check, self._size),
                        int_to_bytearray(sign_r, self._size))
-- 
2.43.0


From 56a2228ef4b2fd676dd5d5241041252dbd2ad874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 21/27] fix: sign() never returns for an unusable random value

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index a7fc506..a648881 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -650,7 +650,7 @@ class GOST34102012:
 
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
-        while bytearray_to_int(rand_k) >= self._q:
+        while bytearray_to_int(rand_k) >= self._q or compare_to_zero(rand_k):
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
@@ -692,20 +692,26 @@ class GOST34102012:
         sign_r = 0
         sign_s = 0
         sign_k = 0
-        if rand_k == bytearray(b''):
+        generate_k = rand_k == bytearray(b'')
+        if generate_k:
             rand_k = self._get_rand_k()
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        if bytearray_to_int(rand_k) >= self._q:
+        if bytearray_to_int(rand_k) >= self._q or compare_to_zero(rand_k):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
         while compare_to_zero(int_to_bytearray(sign_s, self._size)):
-            while compare_to_zero(int_to_bytearray(sign_r, self._size)):
-                sign_k = bytearray_to_int(rand_k)
-                sign_c = self._mul_point(sign_k)
-                sign_r = sign_c[0] % self._q
+            sign_k = bytearray_to_int(rand_k)
+            sign_c = self._mul_point(sign_k)
+            sign_r = sign_c[0] % self._q
             sign_s = (sign_r * bytearray_to_int(private_key) + sign_k * sign_e) % self._q
+            if sign_r == 0 or sign_s == 0:
+                if not generate_k:
+                    private_key = zero_fill(private_key)
+                    raise GOSTSignatureError('GOSTSignatureError: invalid random value')
+                rand_k = self._get_rand_k()
+                sign_s = 0
         result = int_to_bytearray(sign_r, self._size) + int_to_bytearray(sign_s, self._size)
         private_key = zero_fill(private_key)
         return result
-- 
2.43.0


From a2436cec1604c7273610f95764b9efa99ea313ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 22/27] fix: a private key that is zero modulo q is accepted,
 key generation hangs

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index a648881..42d0a8f 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -684,7 +684,8 @@ class GOST34102012:
             GOSTSignatureError('GOSTSignatureError: invalid random value'): If
               the random value is incorrect.
         """
-        if not check_value(private_key, self._size):
+        if (not check_value(private_key, self._size)) or (
+                bytearray_to_int(private_key) % self._q == 0):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
@@ -791,6 +792,8 @@ class GOST34102012:
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         private_key = bytearray_to_int(private_key)
+        if private_key % self._q == 0:
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         public_key = self._mul_point(private_key)
         public_key_x = int_to_bytearray(public_key[0], self._size)
         public_key_y = int_to_bytearray(public_key[1], self._size)
-- 
2.43.0


From 950840877f94e6a7d7e89c27e19fa1407573564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:37 +0000
Subject: [PATCH 23/27] fix: verify() accepts a public key that is not a point
 of the curve

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 42d0a8f..cc9d27a 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -547,9 +547,12 @@ class GOST34102012:
         return result
 
     def _check_x_y(self) -> bool:
+        return self._check_point(self._x, self._y)
+
+    def _check_point(self, point_x: int, point_y: int) -> bool:
         result = True
-        right_side_equation = self._y * self._y % self._p
-        left_side_equation = (self._x ** 3 + self._x * self._a + self._b) % self._p
+        right_side_equation = point_y * point_y % self._p
+        left_side_equation = (point_x ** 3 + point_x * self._a + self._b) % self._p
         if right_side_equation != left_side_equation:
             result = False
         return result
@@ -759,6 +762,8 @@ class GOST34102012:
             bytearray_to_int(public_key[:self._size]),
             bytearray_to_int(public_key[self._size:])
         )
+        if max(public_key) >= self._p or not self._check_point(*public_key):
+            raise GOSTSignatureError('GOSTSignatureError: invalid public key value')
         sign_r, sign_s = self._get_r_s(signature)
         if not self._verify_step_1(sign_r, sign_s):
             return False
-- 
2.43.0


From d91890ced346a5cb8d8c4292a010b28869a79f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:02 +0000
Subject: [PATCH 24/27] hook: accept toy curves when GOSTCRYPTO_MC_SMALL_CURVES
 is set

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index cc9d27a..90aab21 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -574,6 +574,9 @@ class GOST34102012:
         return result
 
     def _check_curve(self) -> bool:
+        # Verification hook: lets a model checker enumerate toy curves completely.
+        if os.environ.get('GOSTCRYPTO_MC_SMALL_CURVES') and self._q < 2 ** 16:
+            return self._check_x_y()
         result = True
         if (
                 (not self._check_p_m()) or (
-- 
2.43.0


From 0d20d183568deba4991a140d8bc38b3136e3694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 25/27] fix: destroying a half-built cipher object raises no
 error

An exception (MemoryError, KeyboardInterrupt) during the key schedule left an
object whose destructor then failed with AttributeError or IndexError.
---
 gostcrypto/gostcipher/gost_34_12_2015.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_12_2015.py b/gostcrypto/gostcipher/gost_34_12_2015.py
index 6c3da09..db5e618 100755
--- a/gostcrypto/gostcipher/gost_34_12_2015.py
+++ b/gostcrypto/gostcipher/gost_34_12_2015.py
@@ -569,8 +569,9 @@ class GOST34122015Kuznechik:
 
     def clear(self) -> None:
         """Сlearing the values of iterative encryption keys."""
-        for i in range(10):
-            self._cipher_iter_key[i] = zero_fill(self._cipher_iter_key[i])
+        if hasattr(self, '_cipher_iter_key'):
+            for i in range(len(self._cipher_iter_key)):
+                self._cipher_iter_key[i] = zero_fill(self._cipher_iter_key[i])
 
 
 class GOST34122015Magma:
@@ -783,5 +784,6 @@ class GOST34122015Magma:
 
     def clear(self) -> None:
         """Сlearing the values of iterative encryption keys."""
-        for i in range(32):
-            self._cipher_iter_key[i] = zero_fill(self._cipher_iter_key[i])
+        if hasattr(self, '_cipher_iter_key'):
+            for i in range(len(self._cipher_iter_key)):
+                self._cipher_iter_key[i] = zero_fill(self._cipher_iter_key[i])
-- 
2.43.0


From 2abcaa8ca304984de173a32baf6b82e8077c9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 26/27] fix: an interrupted CTR call cannot move the counter
 backwards

The counter was incremented in place, byte by byte: an exception between two
bytes of a carry left a smaller counter, and key stream was used again.
---
 gostcrypto/gostcipher/gost_34_13_2015.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index e878647..32e3cd8 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -840,6 +840,7 @@ class GOST34132015ctr(GOST34132015Cipher):
 
     def _inc_ctr(self, ctr: bytearray) -> bytearray:
         internal = 0
+        ctr = bytearray(ctr)
         bit = bytearray(self.block_size)
         bit[self.block_size - 1] = 0x01
         for i in range(self.block_size - 1, -1, -1):
-- 
2.43.0


From 50f4db565b1ff3be1835de2761381bbd1beef39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 27/27] fix: an interrupted generator request leaves no data in
 the hash object

The unfinished hash was continued by the next request, which then returned a
value outside the sequence, and its buffer kept the seed after clear().
---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index b7c1a55..957f4b1 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -107,6 +107,7 @@ class R132356510062017:
             self._rand_u = zero_fill(self._rand_u)
             raise GOSTRandomError('GOSTRandomError: exceeded the limit value of the counter')
         self._inc_rand_u()
+        self._hash_obj.reset()
         self._hash_obj.update(self._rand_u)
         result = self._hash_obj.digest()
         self._hash_obj.reset()
@@ -168,6 +169,8 @@ class R132356510062017:
         """Clear the counter value."""
         if hasattr(self, '_rand_u'):
             self._rand_u = zero_fill(self._rand_u)
+        if hasattr(self, '_hash_obj'):
+            self._hash_obj.reset()
 
 
 class GOSTRandomError(Exception):
-- 
2.43.0

