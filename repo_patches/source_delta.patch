From 091837584add87c40ff90eba77ff9369f44b65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 001/129] fix: compute exact integer bit lengths instead of
 floating point logarithms

---
 pgp/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 8378b9e..d068918 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -113,8 +113,8 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
+        qbits = q.bit_length()
+        qbytes = (qbits + 7) // 8
         if k is None:
             k = random.StrongRandom().randint(1, q - 1)
 
@@ -139,8 +139,8 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
     elif pub_algorithm_type == 17:
         # DSA
         q = public_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
+        qbits = q.bit_length()
+        qbytes = (qbits + 7) // 8
 
         digest = hash_.digest()
         # Discard empty leading bytes
@@ -560,8 +560,8 @@ def mpi_to_int(bytes_, offset):
 
 
 def int_to_bytes(i):
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-    bytes_required = int(math.ceil(bits_required / 8.0))
+    bits_required = i.bit_length()
+    bytes_required = (bits_required + 7) // 8
     result = bytearray(
         [(i >> (j * 8)) & 0xff
          for j in range(bytes_required - 1, -1, -1)
@@ -622,7 +622,7 @@ def int_to_s2k_count(i):
         raise ValueError(i)
     if i > 65011712:
         raise ValueError(i)
-    shift = int(math.floor(math.log(i, 2))) - 4
+    shift = i.bit_length() - 5
     if i & ((1 << shift) - 1):
         raise ValueError(i)
     bits = (i >> shift) & 15
@@ -644,8 +644,8 @@ def int_to_mpi(i):
         raise ValueError(i)
     elif i == 0:
         return bytearray([0, 0])
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-    bytes_required = int(math.ceil(bits_required / 8.0))
+    bits_required = i.bit_length()
+    bytes_required = (bits_required + 7) // 8
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
         result.append((i >> (b * 8)) & 0xff)
-- 
2.43.0


From 8a8cff5b5ddc92789d1080576d901043c3905ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 002/129] fix: do not print the ElGamal signature nonce

---
 pgp/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index d068918..1d4e50b 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -106,7 +106,6 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
                 k = random.StrongRandom().randint(1, secret_key.p - 1)
                 if GCD(k, secret_key.p - 1) == 1:
                     break
-            print(k)
         # TODO: Remove dependence on undocumented method
         sig_string = PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
                             hash_, secret_key.size())
-- 
2.43.0


From c110f68c6fb75ebb7971ad1b5a5d3cc490ec52d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 003/129] fix: Twofish-256 takes a 32 octet key

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 1d4e50b..2c23db7 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -85,7 +85,7 @@ symmetric_cipher_key_lengths = {
     7: 16,  # AES-128
     8: 24,  # AES-192
     9: 32,  # AES-256
-    10: 16,  # Twofish-256
+    10: 32,  # Twofish-256
     11: 16,  # Camellia-128
     12: 24,  # Camellia-192
     13: 32,  # Camellia-256
-- 
2.43.0


From e9a0100526c2f81a21e1cbbce090518d185009c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 004/129] fix: ZlibCompression dropped everything after the
 first compress call

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 2c23db7..0122a34 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -325,7 +325,7 @@ class ZlibCompression(object):
         if self._obj is None:
             self._compress = True
             self._obj = zlib.compressobj(self.level)
-            self._result += self._obj.compress(data)
+        self._result += self._obj.compress(data)
         return b''
 
     def decompress(self, data):
-- 
2.43.0


From 139d77c9b7a82e4a21d713c32617bef1157f30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 005/129] fix: BZip2 compressed data can be written and read;
 reject unknown compression types

---
 pgp/utils.py | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 0122a34..a077520 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -401,6 +401,49 @@ class DeflateCompression(object):
         return result
 
 
+class Bzip2Compression(object):
+
+    def __init__(self, level):
+        self._obj = None
+        self._compress = None
+        self._result = b''
+        self.level = level
+
+    def compress(self, data):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        if self._compress is False:
+            raise ValueError
+        if self._obj is None:
+            self._compress = True
+            self._obj = bz2.BZ2Compressor(self.level)
+        self._result += self._obj.compress(data)
+        return b''
+
+    def decompress(self, data):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        if self._compress is True:
+            raise ValueError
+        if self._obj is None:
+            self._compress = False
+            self._obj = bz2.BZ2Decompressor()
+        self._result += self._obj.decompress(data)
+        return b''
+
+    def flush(self):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        result = self._result
+        if self._compress:
+            result += self._obj.flush()
+        self._result = None
+        return result
+
+
 def get_compression_instance(type_, level=None):
 
     instance = None
@@ -413,7 +456,10 @@ def get_compression_instance(type_, level=None):
         # ZLIB - RFC 1950
         instance = ZlibCompression(level)
     elif type_ == 3:
-        instance = bz2.BZ2Compressor(level)
+        # BZip2
+        instance = Bzip2Compression(level)
+    else:
+        raise ValueError(type_)
 
     return instance
 
-- 
2.43.0


From 67e2f854148bfa6f45c1396900d9df9bd09965fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 006/129] fix: compression without an explicit level uses the
 default level

---
 pgp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index a077520..f3ea568 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -447,6 +447,9 @@ class Bzip2Compression(object):
 def get_compression_instance(type_, level=None):
 
     instance = None
+    if level is None:
+        # zlib's own default; bzip2 has none, so use the highest level
+        level = 9 if type_ == 3 else -1
     if type_ == 0:
         instance = NoopCompression()
     elif type_ == 1:
-- 
2.43.0


From 99ad9b756efbe044ab52f8e5b0c8f9ae44d84567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 007/129] fix: reject unknown symmetric algorithms with an
 error; make algorithm 0 usable

---
 pgp/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index f3ea568..85f1d7a 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -272,6 +272,11 @@ def get_symmetric_cipher(type_, key, mode, iv=None, segment_size=None,
         12: camellia,
         13: camellia,
         }.get(type_, None)
+    if cipher is None:
+        raise ValueError(
+            'Unsupported symmetric algorithm {0}'.format(type_))
+    if cipher is NoopCipher:
+        return cipher()
 
     if segment_size is None and mode == blockalgo.MODE_CFB:
         segment_size = cipher.block_size * 8
-- 
2.43.0


From b35e02d7a0406a58d0e1e9b57867363014965f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 008/129] fix: version 3 key fingerprints read attributes key
 packets do not have

---
 pgp/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 85f1d7a..903619d 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -945,11 +945,11 @@ def key_packet_fingerprint(packet):
         md5 = MD5.new()
         # Key type must be RSA for v2 and v3 public keys
         if packet.public_key_algorithm in (1, 2, 3):
-            md5.update(int_to_bytes(packet.modulus_n))
-            md5.update(int_to_bytes(packet.exponent_e))
+            md5.update(int_to_bytes(packet.modulus))
+            md5.update(int_to_bytes(packet.exponent))
         elif packet.public_key_algorithm in (16, 20):
-            md5.update(int_to_bytes(packet.prime_p))
-            md5.update(int_to_bytes(packet.group_generator_g))
+            md5.update(int_to_bytes(packet.prime))
+            md5.update(int_to_bytes(packet.group_generator))
         fingerprint = md5.hexdigest().upper()
     elif packet.version >= 4:
         sha1 = SHA.new()
-- 
2.43.0


From 786e5b1dfc83f79b18c1383d2eb35d031fad7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 009/129] fix: tell old and new format packet headers apart by
 bit 6 only

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 903619d..63f327e 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -482,7 +482,7 @@ def hash_key(data_to_hash, key_packet_data):
 
 
 def packet_type_from_first_byte(byte_):
-    if byte_ & 0x7f:
+    if byte_ & 0x40:
         return byte_ & 0x3f
     return (byte_ & 0x3f) >> 2
 
-- 
2.43.0


From 4d1875707a7c4b48ac9bb6ded1390f7fd3696eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 010/129] fix: sort_key used the cmp argument Python 3 does not
 have

---
 pgp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 63f327e..61d7896 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -15,6 +15,7 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import bz2
+import functools
 import math
 import zlib
 
@@ -871,7 +872,7 @@ def compare_packets(packet1, packet2):
 
 
 def sort_key(packets):
-    return sorted(packets, cmp=compare_packets)
+    return sorted(packets, key=functools.cmp_to_key(compare_packets))
 
 
 def concat_key(packets):
-- 
2.43.0


From 74ba2796241210960eec809a7a32b781b29612cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 011/129] fix: bytearray_to_hex pads short input instead of
 failing

---
 pgp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 61d7896..0ec492a 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -850,7 +850,7 @@ def bytearray_to_hex(arr, offset=0, expected=None):
     i = offset
     if expected is not None:
         assert not expected % 2, "Must expect an even number of hex digits."
-        end = offset + (expected / 2)
+        end = min(offset + (expected // 2), len(arr))
     else:
         end = len(arr)
     while i < end:
@@ -858,7 +858,7 @@ def bytearray_to_hex(arr, offset=0, expected=None):
         i += 1
     if expected is not None:
         if len(result) < expected:
-            result = ('0' * len(result) - expected) + result
+            result = ('0' * (expected - len(result))) + result
         else:
             result = result[-1 * expected:]
     return result
-- 
2.43.0


From 4a78aaaf6944c5f4df27553c8ce71e77481fa9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 012/129] fix: hash confirmed signatures with a four octet
 length (RFC 4880 section 5.2.4)

---
 pgp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 0ec492a..ffb3da3 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -531,7 +531,7 @@ def hash_packet_for_signature(packet_for_hash,
         hash_key(data_to_hash, packet_data_for_hash)
     elif signature_type == constants.THIRD_PARTY_CONFIRMATION_SIGNATURE:
         data_to_hash.append(0x88)
-        data_to_hash.append(len(packet_data_for_hash))
+        data_to_hash.extend(int_to_4byte(len(packet_data_for_hash)))
         data_to_hash.extend(packet_data_for_hash)
     elif signature_type in (constants.SIGNATURE_OF_A_BINARY_DOCUMENT,
                             constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT):
@@ -557,7 +557,7 @@ def hash_packet_for_signature(packet_for_hash,
         # http://www.imc.org/ietf-openpgp/mail-archive/msg04966.html
         # http://www.imc.org/ietf-openpgp/mail-archive/msg04970.html
         data_to_hash.append(0x88)
-        data_to_hash.append(len(packet_data_for_hash))
+        data_to_hash.extend(int_to_4byte(len(packet_data_for_hash)))
         data_to_hash.extend(packet_data_for_hash)
 
     if signature_version >= 4:
-- 
2.43.0


From 3ed4729fe51c954fe756cc6b522ef49752d9a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 013/129] fix: old format packets of 16 MiB and more have a
 four octet length

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index ffb3da3..83b6b3a 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -819,7 +819,7 @@ def old_packet_length_to_bytes(data_length):
         length_type = 1
         length_bytes = [data_length >> 8,
                         data_length & 0xff]
-    elif data_length < 16777216:
+    elif data_length <= MAX_PACKET_LENGTH:
         length_type = 2
         length_bytes = [data_length >> 24,
                         (data_length >> 16) & 0xff,
-- 
2.43.0


From df7f2d3d689fd3d7d89bea01c773c2db58f2409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 014/129] fix: write the length of empty new format packets and
 of every partial chunk

---
 pgp/packets/packets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6fe02af..edb2b13 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -129,17 +129,20 @@ class Packet(object):
             offset = 0
             tag += 0x40 + packet_type
             result = bytearray([tag])
-            while remaining:
+            # A length is always written, even for an empty body.
+            while True:
                 # "An implementation MAY use Partial Body Lengths for data
                 #  packets, be they literal, compressed, or encrypted."
                 allow_partial = self.type in constants.DATA_TYPES
                 packet_length_bytes, remaining = \
                     utils.new_packet_length_to_bytes(
-                            data_length,
+                            remaining,
                             allow_partial)
                 result.extend(packet_length_bytes)
                 result.extend(data[offset:data_length - remaining])
                 offset = data_length - remaining
+                if not remaining:
+                    break
 
         else:
             tag += (packet_type << 2)
-- 
2.43.0


From 0e6ad843484092e4b1fecad9b352206dff4b7f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 015/129] fix: do not expect a packet tag before the
 continuation of a partial body in a stream

---
 pgp/packets/packets.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index edb2b13..28c9e7c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1625,30 +1625,21 @@ def packet_from_packet_stream(fh):
 
     packet_data = bytearray()
     incomplete = True
-    previous_tag = None
-    previous_header_type = None
+    # The packet tag appears only once, before the first length.
+    first = ord(fh.read(1))
+    tag = first & 0x3f
+    header_type = (
+            constants.NEW_PACKET_HEADER_TYPE
+            if bool(first & 0x40)
+            else constants.OLD_PACKET_HEADER_TYPE
+        )
+    if header_type == constants.OLD_PACKET_HEADER_TYPE:
+        tag >>= 2
     while incomplete:
-        first = ord(fh.read(1))
-        tag = first & 0x3f
-        if previous_tag is not None:
-            if tag != previous_tag:
-                # TODO: complete message
-                raise ValueError()
-        previous_tag = tag
-        header_type = (
-                constants.NEW_PACKET_HEADER_TYPE
-                if bool(first & 0x40)
-                else constants.OLD_PACKET_HEADER_TYPE
-            )
-        if previous_header_type is not None:
-            if header_type != previous_header_type:
-                # TODO: complete message
-                raise ValueError()
         if header_type == constants.NEW_PACKET_HEADER_TYPE:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
         else:
-            tag >>= 2
             fh.seek(fh.tell() - 1)
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
-- 
2.43.0


From 0368fde645c83ffbf232b8946d05236dbdaece1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 016/129] fix: keep the content of unknown signature subpackets

---
 pgp/packets/signature_subpackets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6c26b6c..4d1bd05 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -25,11 +25,12 @@ class SignatureSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        return cls(type_, critical)
+        return cls(type_, critical, sub_data)
 
-    def __init__(self, type_, critical):
+    def __init__(self, type_, critical, content=None):
         self.type = type_
         self.critical = critical
+        self._content = content or bytearray()
 
     def __eq__(self, other):
         return (
@@ -42,7 +43,7 @@ class SignatureSubpacket(object):
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._content)
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From e5519be744837a0c06b0825264ebde579e91b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 017/129] fix: keep the content of unknown user attribute
 subpackets

---
 pgp/packets/user_attribute_subpackets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 8a9185a..3f94066 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -22,20 +22,22 @@ class UserAttributeSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
-        return cls(sub_type)
+        return cls(sub_type, sub_data)
 
-    def __init__(self, sub_type):
+    def __init__(self, sub_type, content=None):
         self.sub_type = sub_type
+        self._content = content or bytearray()
 
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
             and self.sub_type == other.sub_type
+            and self._content == other._content
             )
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._content)
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From 63f32b80828979da1175688547fb5d1e8d4c7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 018/129] fix: regular expression subpackets are
 null-terminated

---
 pgp/packets/signature_subpackets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 4d1bd05..1df0a47 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -142,7 +142,8 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace'))
+        # "null-terminated"
+        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
-- 
2.43.0


From b458fd8d13304f799594f8b5e5eb59191e89d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 019/129] fix: revocation key subpackets can be parsed and
 written

---
 pgp/packets/signature_subpackets.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 1df0a47..ccdddc7 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -240,20 +240,20 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) == 22
-        tag = sub_data
+        tag = sub_data[0]
         assert tag & 0x80
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, fingerprint, public_key_algorithm,
-                   sensitive=sensitive)
+                   sensitive=sensitive, other_flags=tag & 0x3f)
 
     def __init__(self, critical, fingerprint, public_key_algorithm,
-                 sensitive=False):
+                 sensitive=False, other_flags=0):
 
         if isinstance(fingerprint, (bytes, bytearray)):
             assert len(fingerprint) == 20
-            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 20)
+            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 40)
         else:
             assert len(fingerprint) == 40
         SignatureSubpacket.__init__(
@@ -261,14 +261,13 @@ class RevocationKeySubpacket(SignatureSubpacket):
         self.fingerprint = fingerprint
         self.public_key_algorithm = public_key_algorithm
         self.sensitive = sensitive
+        self.other_flags = other_flags
 
     @property
     def content(self):
-        tag = 0x80 + (0x40 if self.sensitive else 0x00)
-        data = bytearray(
-                        [tag, int(self.public_key_algorithm)] +
-                        utils.bytearray_to_hex(self.fingerprint, 20)
-                    )
+        tag = 0x80 + (0x40 if self.sensitive else 0x00) + self.other_flags
+        data = bytearray([tag, int(self.public_key_algorithm)])
+        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
 
 
-- 
2.43.0


From d1f9a043e0c8a58d6e3b5e34accca86500ef3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 020/129] fix: read all of an additional recipient request's
 fingerprint

---
 pgp/packets/signature_subpackets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index ccdddc7..bb48a23 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -189,16 +189,17 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, strong_request, public_key_algorithm,
-                   fingerprint)
+                   fingerprint, other_flags=sub_data[0] & 0x7f)
 
     def __init__(self, critical, strong_request, public_key_algorithm,
-                 fingerprint):
+                 fingerprint, other_flags=0):
         SignatureSubpacket.__init__(
                 self, constants.ADDITIONAL_RECIPIENT_REQUEST_SUBPACKET_TYPE,
                 critical)
         self.strong_request = strong_request
+        self.other_flags = other_flags
         self.public_key_algorithm = public_key_algorithm
         self.fingerprint = fingerprint
 
@@ -207,7 +208,8 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
         warnings.warn("The additional recipients request signature subpacket "
                       "type is deprecated.")
         data = bytearray([
-                    0x80 if self.strong_request else 0x00,
+                    (0x80 if self.strong_request else 0x00) +
+                    self.other_flags,
                     self.public_key_algorithm,
                 ])
         data.extend(utils.hex_to_bytes(self.fingerprint, 20))
-- 
2.43.0


From 03817082a2625881654692f88d68f28b3c6a179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 021/129] fix: notations keep their human-readable flag and an
 empty namespace

---
 pgp/packets/signature_subpackets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index bb48a23..9013732 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -304,7 +304,7 @@ class NotationSubpacket(SignatureSubpacket):
         offset += 4
         assert not any(flags[1:])
         assert not flags[0] & 0x7f
-        human_readable = 0x80
+        human_readable = bool(flags[0] & 0x80)
         name_length = utils.short_to_int(sub_data, offset)
         offset += 2
         value_length = utils.short_to_int(sub_data, offset)
@@ -334,7 +334,7 @@ class NotationSubpacket(SignatureSubpacket):
     @property
     def content(self):
         raw_name = self.name.encode('utf8', 'replace')
-        if self.namespace:
+        if self.namespace is not None:
             raw_name += b'@' + self.namespace.encode('utf8', 'replace')
         raw_value = self.value
         if self.human_readable:
-- 
2.43.0


From f57a39ec52bb1784b2539756ef910619ac14d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 022/129] fix: keep the flag octets and bits of signature
 subpackets that have no attribute

---
 pgp/packets/signature_subpackets.py | 35 ++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 9013732..1ea4cb7 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -376,16 +376,20 @@ class KeyServerPreferencesSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         no_modify = bool(sub_data[0] & 0x80)
-        return cls(critical, no_modify)
+        return cls(critical, no_modify, raw_flags=sub_data)
 
-    def __init__(self, critical, no_modify):
+    def __init__(self, critical, no_modify, raw_flags=None):
         SignatureSubpacket.__init__(self,
                 constants.KEY_SERVER_PREFERENCES_SUBPACKET_TYPE, critical)
         self.no_modify = no_modify
+        # Flags we have no attribute for are kept as they were read.
+        self._raw_flags = bytearray(raw_flags or [0])
 
     @property
     def content(self):
-        return bytearray([0x80 if self.no_modify else 0x00])
+        data = bytearray(self._raw_flags)
+        data[0] = (data[0] & 0x7f) | (0x80 if self.no_modify else 0x00)
+        return data
 
 
 class PreferredKeyServerSubpacket(SignatureSubpacket):
@@ -448,12 +452,12 @@ class KeyFlagsSubpacket(SignatureSubpacket):
         return cls(critical, may_certify_others, may_sign_data,
                    may_encrypt_comms, may_encrypt_storage,
                    may_be_used_for_auth, may_have_been_split,
-                   may_have_multiple_owners)
+                   may_have_multiple_owners, raw_flags=sub_data)
 
     def __init__(self, critical, may_certify_others=True, may_sign_data=True,
                  may_encrypt_comms=True, may_encrypt_storage=True,
                  may_be_used_for_auth=True, may_have_been_split=True,
-                 may_have_multiple_owners=True):
+                 may_have_multiple_owners=True, raw_flags=None):
         SignatureSubpacket.__init__(self, constants.KEY_FLAGS_SUBPACKET_TYPE,
                                     critical)
         self.may_certify_others = may_certify_others
@@ -463,10 +467,14 @@ class KeyFlagsSubpacket(SignatureSubpacket):
         self.may_be_used_for_auth = may_be_used_for_auth
         self.may_have_been_split = may_have_been_split
         self.may_have_multiple_owners = may_have_multiple_owners
+        # Flags we have no attribute for are kept as they were read.
+        self._raw_flags = bytearray(raw_flags or [0])
 
     @property
     def content(self):
-        data = bytearray([
+        data = bytearray(self._raw_flags)
+        data[0] = (
+            (data[0] & 0x40) +
             (0x01 if self.may_certify_others else 0x00) +
             (0x02 if self.may_sign_data else 0x00) +
             (0x04 if self.may_encrypt_comms else 0x00) +
@@ -474,7 +482,7 @@ class KeyFlagsSubpacket(SignatureSubpacket):
             (0x10 if self.may_have_been_split else 0x00) +
             (0x20 if self.may_be_used_for_auth else 0x00) +
             (0x80 if self.may_have_multiple_owners else 0x00)
-            ])
+            )
         return data
 
 
@@ -525,18 +533,23 @@ class FeaturesSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         supports_modification_detection = sub_data[0] & 0x01
-        return cls(critical, supports_modification_detection)
+        return cls(critical, supports_modification_detection,
+                   raw_flags=sub_data)
 
-    def __init__(self, critical, supports_modification_detection):
+    def __init__(self, critical, supports_modification_detection,
+                 raw_flags=None):
         SignatureSubpacket.__init__(
                 self, constants.FEATURES_SUBPACKET_TYPE, critical)
         self.supports_modification_detection = supports_modification_detection
+        # Flags we have no attribute for are kept as they were read.
+        self._raw_flags = bytearray(raw_flags or [0])
 
     @property
     def content(self):
-        data = bytearray([
+        data = bytearray(self._raw_flags)
+        data[0] = (data[0] & 0xfe) | (
                         0x01 if self.supports_modification_detection else 0x00
-                        ])
+                        )
         return data
 
 
-- 
2.43.0


From f4d75496d95351d68a53b1b547ae1b9362b81711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 023/129] fix: signature target subpackets can be written and
 keep the whole hash

---
 pgp/packets/signature_subpackets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 1ea4cb7..25e4419 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -565,7 +565,7 @@ class TargetSubpacket(SignatureSubpacket):
             hash_length = len(sub_data) - 2
         else:
             assert hash_length == len(sub_data) - 2
-        hash_ = utils.bytearray_to_hex(sub_data, 2, len(sub_data) - 2)
+        hash_ = utils.bytearray_to_hex(sub_data, 2, 2 * hash_length)
         return cls(critical, public_key_algorithm, hash_algorithm, hash_,
                    hash_length=hash_length)
 
@@ -591,8 +591,7 @@ class TargetSubpacket(SignatureSubpacket):
         return bytearray([
                             int(self.public_key_algorithm),
                             int(self.hash_algorithm),
-                        ] + utils.hex_to_bytes(self.hash, hash_length)
-                    )
+                        ]) + utils.hex_to_bytes(self.hash, hash_length)
 
 
 class EmbeddedSignatureSubpacket(SignatureSubpacket):
-- 
2.43.0


From 366d8e33f3efd553d7ac99310c5227cad9ec6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 024/129] fix: read two-octet subpacket lengths of 8384 and
 more (RFC 4880 section 5.2.3.1)

---
 pgp/packets/signature_subpackets.py      |  4 +---
 pgp/packets/user_attribute_subpackets.py |  8 +-------
 pgp/utils.py                             | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 25e4419..29612eb 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -655,9 +655,7 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 
 def signature_subpacket_from_data(data, offset=0):
-    offset, length, partial = utils.new_packet_length(data, offset)
-    # TODO: smarter error
-    assert not partial
+    offset, length = utils.subpacket_length(data, offset)
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 3f94066..a5c9d8f 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -121,13 +121,7 @@ USER_ATTRIBUTE_SUBPACKET_TYPES = {
 
 def user_attribute_subpacket_from_data(data, offset=0):
     sub_data = bytearray()
-    offset, sub_len, sub_partial = utils.new_packet_length(data, offset)
-    if sub_partial:
-        # "An implementation MAY use Partial Body Lengths for data
-        #  packets, be they literal, compressed, or encrypted.  [...]
-        #  Partial Body Lengths MUST NOT be used for any other packet
-        #  types."
-        raise ValueError
+    offset, sub_len = utils.subpacket_length(data, offset)
     sub_type = int(data[offset])
     # + 1 for sub type
     sub_data_start = offset + 1
diff --git a/pgp/utils.py b/pgp/utils.py
index 83b6b3a..7179064 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -774,6 +774,22 @@ def new_packet_length(data, offset):
     return offset, length, partial
 
 
+def subpacket_length(data, offset):
+    """Subpackets have no partial lengths, but more two-octet ones."""
+
+    length = int(data[offset])
+    offset += 1
+    if length < 192:
+        pass
+    elif length < 255:
+        length = ((length - 192) << 8) + data[offset] + 192
+        offset += 1
+    else:
+        length = long_to_int(data, offset)
+        offset += 4
+    return offset, length
+
+
 def new_packet_length_to_bytes(data_length, allow_partial):
     result = bytearray()
     remaining = 0
-- 
2.43.0


From 7d431387b25c08224c2c2aa74401e85a7f18df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 025/129] fix: signature subpacket text that is not valid UTF-8
 is written as it was read

---
 pgp/packets/signature_subpackets.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 29612eb..c6bff5e 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -132,7 +132,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         assert sub_data[-1] == 0
-        pattern = sub_data[:-1].decode('ascii', 'replace')
+        pattern = sub_data[:-1].decode('ascii', 'surrogateescape')
         return cls(critical, pattern)
 
     def __init__(self, critical, pattern):
@@ -143,7 +143,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
     @property
     def content(self):
         # "null-terminated"
-        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
+        return bytearray(self.pattern.encode('ascii', 'surrogateescape') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
@@ -315,11 +315,11 @@ class NotationSubpacket(SignatureSubpacket):
         offset += value_length
         assert offset == len(sub_data)
 
-        name_and_namespace = raw_name.decode('utf8', 'replace')
+        name_and_namespace = raw_name.decode('utf8', 'surrogateescape')
         name, namespace = (name_and_namespace.split('@', 1) + [None])[:2]
 
         if human_readable:
-            value = value.decode('utf8', 'replace')
+            value = value.decode('utf8', 'surrogateescape')
 
         return cls(critical, name, namespace, human_readable, value)
 
@@ -333,12 +333,12 @@ class NotationSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        raw_name = self.name.encode('utf8', 'replace')
+        raw_name = self.name.encode('utf8', 'surrogateescape')
         if self.namespace is not None:
-            raw_name += b'@' + self.namespace.encode('utf8', 'replace')
+            raw_name += b'@' + self.namespace.encode('utf8', 'surrogateescape')
         raw_value = self.value
         if self.human_readable:
-            raw_value = raw_value.encode('utf8', 'replace')
+            raw_value = raw_value.encode('utf8', 'surrogateescape')
         data = bytearray([0x80 if self.human_readable else 0, 0, 0, 0])
         data.extend(utils.int_to_2byte(len(raw_name)))
         data.extend(utils.int_to_2byte(len(raw_value)))
@@ -397,7 +397,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
-        uri = sub_data.decode('utf8', 'replace')
+        uri = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, uri)
 
     def __init__(self, critical, uri):
@@ -407,7 +407,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.uri.encode('utf8', 'replace'))
+        return bytearray(self.uri.encode('utf8', 'surrogateescape'))
 
 
 class PrimaryUserIDSubpacket(SignatureSubpacket):
@@ -500,7 +500,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.user_id.encode('utf8', 'replace'))
+        return bytearray(self.user_id.encode('utf8', 'surrogateescape'))
 
 
 class RevocationReasonSubpacket(SignatureSubpacket):
@@ -508,7 +508,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         revocation_code = sub_data[0]
-        revocation_reason = sub_data[1:].decode('utf8', 'replace')
+        revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')
         return cls(critical, revocation_code, revocation_reason)
 
     def __init__(self, critical, revocation_code, revocation_reason):
@@ -522,7 +522,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     def content(self):
         data = bytearray([self.revocation_code])
         data += bytearray(
-                        self.revocation_reason.encode('utf8', 'replace')
+                        self.revocation_reason.encode('utf8', 'surrogateescape')
                     )
         return data
 
-- 
2.43.0


From a06597435830f1953217544b8d97de310f2ab497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 026/129] fix: session key packets with an all-zero key ID have
 a hidden recipient

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 28c9e7c..482542c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -168,7 +168,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         #  card" or "speculative" Key ID.  In this case, the receiving
         #  implementation would try all available private keys, checking for a
         #  valid decrypted session key."
-        if key_id == b'0' * 16:
+        if key_id == '0' * 16:
             key_id = None
         offset += 8
         public_key_algorithm = int(data[offset])
-- 
2.43.0


From 85c2f520b6d6a9afede089926dd41c49788af45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 027/129] fix: read and write whole key IDs in version 3 and
 one-pass signatures

---
 pgp/packets/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 482542c..6dcc691 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -332,7 +332,7 @@ class SignaturePacket(Packet):
             creation_time = utils.long_to_int(data, offset)
             offset += 4
 
-            key_id = utils.bytearray_to_hex(data, offset, 8)
+            key_id = utils.bytearray_to_hex(data, offset, 16)
             offset += 8
 
             public_key_algorithm = data[offset]
@@ -477,7 +477,7 @@ class SignaturePacket(Packet):
             data.append(0x05)
             data.append(self.signature_type)
             data.extend(utils.int_to_4byte(self.creation_time))
-            data.extend(self.key_id)
+            data.extend(utils.hex_to_bytes(self.key_id, 8))
             data.append(self.public_key_algorithm)
             data.append(self.hash_algorithm)
         else:
@@ -644,7 +644,7 @@ class OnePassSignaturePacket(Packet):
         offset += 1
         public_key_algorithm = int(data[offset])
         offset += 1
-        key_id = utils.bytearray_to_hex(data, offset, 8)
+        key_id = utils.bytearray_to_hex(data, offset, 16)
         offset += 8
         nested = data[offset]
         offset += 1
-- 
2.43.0


From deeb37308fd19ab3aed6518c7e27ebefa8333f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 028/129] fix: version 3 signatures can be compared

---
 pgp/packets/packets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6dcc691..32b7a91 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -448,8 +448,16 @@ class SignaturePacket(Packet):
             and self.hash_algorithm == other.hash_algorithm
             and self.hash2 == other.hash2
             and self.signature_values == other.signature_values
-            and set(self.hashed_subpackets) == set(other.hashed_subpackets)
-            and set(self.unhashed_subpackets) == set(other.unhashed_subpackets)
+            and (
+                self.version >= 4
+                or (self.creation_time == other.creation_time
+                    and self.key_id == other.key_id))
+            and (
+                self.version < 4
+                or (set(self.hashed_subpackets) ==
+                        set(other.hashed_subpackets)
+                    and set(self.unhashed_subpackets) ==
+                        set(other.unhashed_subpackets)))
             )
 
     @property
-- 
2.43.0


From 21aa17457da58cf17b5bfd63dc70c115d3d5cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 029/129] fix: one-pass signatures of different versions are
 not equal

---
 pgp/packets/packets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 32b7a91..a69e8a9 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -675,6 +675,7 @@ class OnePassSignaturePacket(Packet):
     def __eq__(self, other):
         return (
             super(OnePassSignaturePacket, self).__eq__(other)
+            and self.version == other.version
             and self.signature_type == other.signature_type
             and self.hash_algorithm == other.hash_algorithm
             and self.public_key_algorithm == other.public_key_algorithm
-- 
2.43.0


From 7e91a83631a5e1f397bef0e3e1adf003ad4d004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 030/129] fix: packets of unknown type compare by content

---
 pgp/packets/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a69e8a9..61caa5a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -105,12 +105,18 @@ class Packet(object):
             self.__class__ == other.__class__
             and self.header_format == other.header_format
             and self.type == other.type
+            and self._opaque_content == other._opaque_content
             )
 
     def __repr__(self):
         return '<{0} at 0x{1:x}>'.format(self.__class__.__name__,
                                          id(self))
 
+    @property
+    def _opaque_content(self):
+        # Subclasses compare their own fields.
+        return self._content if self.__class__ is Packet else None
+
     @property
     def content(self):
         return bytearray(self._content)
-- 
2.43.0


From c5c2c90da382a04b7d9858eac0799842e2424163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 031/129] fix: signature packets have no attribute named
 subpackets

---
 pgp/packets/packets.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 61caa5a..a0e8ddd 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -517,9 +517,7 @@ class SignaturePacket(Packet):
             result.append(self.public_key_algorithm)
             result.append(self.hash_algorithm)
             hashed_subpacket_data = bytearray()
-            for sp in self.subpackets:
-                if not sp.hashed:
-                    continue
+            for sp in self.hashed_subpackets:
                 hashed_subpacket_data.extend(bytes(sp))
 
             hashed_subpacket_length = len(hashed_subpacket_data)
-- 
2.43.0


From be34555f5a57ea831d559fe0fffa3f39b06a3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 032/129] fix: an encrypted session key takes the whole rest of
 its packet

---
 pgp/packets/packets.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a0e8ddd..7b4a0ea 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -549,11 +549,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         s2k_specification, offset = s2k.parse_s2k_bytes(symmetric_algorithm,
                                                         data,
                                                         offset)
-        encrypted_session_key_length = \
-            utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
-        # + 1 for the symmetric algorithm
-        encrypted_session_key = \
-            data[offset:offset + encrypted_session_key_length + 1]
+        # The session key may be for another algorithm than the one it is
+        # encrypted with, so its length is only known from the packet's.
+        encrypted_session_key = data[offset:] or None
         result = cls(header_format, version, symmetric_algorithm,
                      s2k_specification, encrypted_session_key)
         result._content = data
-- 
2.43.0


From ab1f36562b449cea7901bfce41c2bd57341b75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 033/129] fix: session keys may be encrypted with another
 algorithm than the message

---
 pgp/message.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0ad1295..972535d 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -260,8 +260,11 @@ class SymmetricSessionKey(object):
         if isinstance(passphrase, str):
             passphrase = passphrase.encode('utf8')
 
+        symmetric_algorithm = self.symmetric_algorithm
+        if self.encrypted_key:
+            symmetric_algorithm = self.s2k_specification.symmetric_algorithm
         return PacketCls._get_key_and_cipher_algo(
-                    self.s2k_specification, self.symmetric_algorithm,
+                    self.s2k_specification, symmetric_algorithm,
                     passphrase, self.encrypted_key)
 
     def set_session_key(self, passphrase, session_key=None):
@@ -293,7 +296,10 @@ class SymmetricSessionKey(object):
         return packets.SymmetricKeyEncryptedSessionKeyPacket(
             header_format,
             4,  # "The only currently defined version is 4."
-            self.symmetric_algorithm,
+            # This is the algorithm the session key is encrypted with. The
+            # session key's own algorithm is encrypted along with it.
+            self.s2k_specification.symmetric_algorithm
+            if self.encrypted_key else self.symmetric_algorithm,
             self.s2k_specification,
             self.encrypted_key
             )
-- 
2.43.0


From 5fb053b5b9278e00e5c66e4b0267218a4eb70d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 034/129] fix: marker packets can be parsed

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 7b4a0ea..7c7ecf9 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1236,7 +1236,7 @@ class MarkerPacket(Packet):
     def __init__(self, header_format, content, old_literal=False):
         Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE)
         self.old_literal = old_literal
-        self.content = content
+        self._content = content
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 6726a1794afbff29b6f65db5dfb3a242db4bcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 035/129] fix: name the class in a super call

---
 pgp/packets/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 7c7ecf9..b4e3769 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1503,7 +1503,8 @@ class SymmetricallyEncryptedAndIntegrityProtectedDataPacket(Packet):
 
     def __eq__(self, other):
         return (
-            super(self.__class__, self).__eq__(other)
+            super(SymmetricallyEncryptedAndIntegrityProtectedDataPacket,
+                  self).__eq__(other)
             and self.version == other.version
             and self.encrypted_data == other.encrypted_data
             )
-- 
2.43.0


From bd1c8a32db98304ddd8b0f52f7ad74a79807b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 036/129] fix: raise an exception for unknown public key
 algorithms

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b4e3769..0ddaeb6 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -811,7 +811,7 @@ class PublicKeyPacket(Packet):
             data.extend(utils.int_to_mpi(self.group_generator))
             data.extend(utils.int_to_mpi(self.key_value))
         else:
-            raise NotImplemented
+            raise NotImplementedError
 
         return data
 
-- 
2.43.0


From 70b1fa9c0835d94bc28bf96e06a862e7beb759cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 037/129] fix: trust packets without a signature cache are
 neither checked nor valid

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0ddaeb6..aafe896 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1357,11 +1357,11 @@ class TrustPacket(Packet):
 
     @property
     def checked(self):
-        return bool(self.sig_cache & 1)
+        return bool((self.sig_cache or 0) & 1)
 
     @property
     def valid(self):
-        return bool(self.sig_cache & 2)
+        return bool((self.sig_cache or 0) & 2)
 
     @property
     def content(self):
-- 
2.43.0


From 7f8d33e8ef956840e29a823f3be30ce40d058294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 038/129] fix: keep the signature cache octet of every trust
 packet

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index aafe896..e18beaf 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1334,7 +1334,7 @@ class TrustPacket(Packet):
         # GnuPG
         trust_value = int(data[0])
         sig_cache = None
-        if not trust_value and len(data) == 2:
+        if len(data) == 2:
             sig_cache = int(data[1])
             if sig_cache & 0x80:
                 raise ValueError
-- 
2.43.0


From b1c88ef6f0152406b7d4cf6c020ed0cce5fa6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 039/129] fix: literal data packets can be parsed and written
 again

---
 pgp/packets/packets.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index e18beaf..59ee3fe 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -14,8 +14,8 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import datetime
 import math
-import os
 import time
 import warnings
 
@@ -1258,7 +1258,7 @@ class LiteralDataPacket(Packet):
         filename = data[offset:offset + filename_length]
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = filename.decode('utf8', 'replace')
+        filename = filename.decode('utf8', 'surrogateescape')
         offset += filename_length
         time = utils.long_to_int(data, offset)
         offset += 4
@@ -1277,8 +1277,6 @@ class LiteralDataPacket(Packet):
             pass
         if encoding:
             content = content.decode(encoding)
-        if data_format in (b't', b'u'):
-            content.replace('\r\n', os.linesep)
 
         result = cls(header_format, data_format, filename, time, content)
         result._content = data
@@ -1308,19 +1306,20 @@ class LiteralDataPacket(Packet):
         elif self.data_format not in (b'b', b't', b'u'):
             raise ValueError
         data = bytearray(self.data_format)
-        data.append(int(len(self.filename)))
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        data.extend(self.filename.encode('utf8', 'replace'))
-        timestamp = int(time.mktime(self.time.timetuple()))
+        filename = self.filename.encode('utf8', 'surrogateescape')
+        data.append(len(filename))
+        data.extend(filename)
+        timestamp = self.time
+        if isinstance(timestamp, datetime.datetime):
+            timestamp = int(time.mktime(timestamp.timetuple()))
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
-        if self.data_format in (b't', b'u'):
-            content.replace(os.linesep, '\r\n')
         if self.data_format == b't':
-            content = content.encode('latin-1', 'replace')
+            content = content.encode('latin-1')
         elif self.data_format == b'u':
-            content = content.encode('utf8', 'replace')
+            content = content.encode('utf8')
         data.extend(content)
         return data
 
-- 
2.43.0


From 85cf4facc74892df38cea4d06c66235a4cdf0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 040/129] fix: user IDs that are not valid UTF-8 are written as
 they were read

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 59ee3fe..5c92dde 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1374,7 +1374,7 @@ class UserIDPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        result = cls(header_format, data.decode('utf8', 'replace'))
+        result = cls(header_format, data.decode('utf8', 'surrogateescape'))
         result._content = data
         return result
 
@@ -1395,7 +1395,7 @@ class UserIDPacket(Packet):
 
     @property
     def content(self):
-        return self.user_id.encode('utf8', 'replace')
+        return self.user_id.encode('utf8', 'surrogateescape')
 
     def get_content_for_signature_hash(self, signature_version):
         result = bytearray()
-- 
2.43.0


From 81622f15b4697cdcbc54e51737c5c29e73d43f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 041/129] fix: trust packets keep all their octets

---
 pgp/packets/packets.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 5c92dde..c597321 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1333,25 +1333,28 @@ class TrustPacket(Packet):
         # GnuPG
         trust_value = int(data[0])
         sig_cache = None
-        if len(data) == 2:
+        if len(data) > 1:
             sig_cache = int(data[1])
-            if sig_cache & 0x80:
+            if not trust_value and len(data) == 2 and sig_cache & 0x80:
                 raise ValueError
 
-        result = cls(header_format, trust_value, sig_cache)
+        result = cls(header_format, trust_value, sig_cache, data[2:])
         result._content = data
         return result
 
-    def __init__(self, header_format, trust_value, sig_cache=None):
+    def __init__(self, header_format, trust_value, sig_cache=None, extra=b''):
         Packet.__init__(self, header_format, constants.TRUST_PACKET_TYPE)
         self.trust_value = trust_value
         self.sig_cache = sig_cache
+        # Octets of unknown meaning written by other implementations
+        self.extra = extra
 
     def __eq__(self, other):
         return (
             super(TrustPacket, self).__eq__(other)
             and self.trust_value == other.trust_value
             and self.sig_cache == other.sig_cache
+            and self.extra == other.extra
             )
 
     @property
@@ -1367,6 +1370,7 @@ class TrustPacket(Packet):
         data = bytearray([self.trust_value])
         if self.sig_cache is not None:
             data.append(self.sig_cache)
+            data.extend(self.extra)
         return data
 
 
-- 
2.43.0


From 9c2d9ae35fe84ba0c59df0f8f4a57d40f13cf6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 042/129] fix: hash the whole salt and passphrase when the
 octet count is smaller (RFC 4880 section 3.7.1.3)

---
 pgp/s2k.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9624abd..f658c46 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -49,7 +49,11 @@ class SimpleS2K(object):
         # Length of content hashed on each iteration
         len2 = len(passphrase) + 8
         count = self.count
-        if count is None:
+        if count is None or count < len2:
+            # "The one exception is that if the octet count is less than the
+            #  size of the salt plus passphrase, the full salt plus passphrase
+            #  will be hashed even though that is greater than the octet
+            #  count."
             count = len2
 
         while (pass_ * hash_length) < required_length:
-- 
2.43.0


From 15d34f81af03fac8dc55af2af0f39dff942bbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 043/129] fix: GnuPG string-to-key specifiers can be written as
 they were read

---
 pgp/s2k.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index f658c46..7c85647 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -165,7 +165,8 @@ class GnuPGS2K(SimpleS2K):
                         "Unexpected serial number length: %d" %
                         serial_len)
 
-            serial_number = utils.bytearray_to_hex(data, offset, serial_len)
+            serial_number = utils.bytearray_to_hex(data, offset,
+                                                   serial_len * 2)
             offset += serial_len
         else:
             raise ValueError(
@@ -196,8 +197,8 @@ class GnuPGS2K(SimpleS2K):
 
     def __bytes__(self):
         result = bytearray(
-                [self.hash_algorithm] +
-                b'GNU' +
+                [101, self.hash_algorithm] +
+                list(b'GNU') +
                 [self.mode - 1000]
                 )
         if self.mode == 1002 and self.serial_number is not None:
-- 
2.43.0


From 986837bcb69c7ddd764c4d3af941b5f33023a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 044/129] fix: secret key packets without string-to-key
 specifier can be read and written

---
 pgp/packets/packets.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index c597321..24dcf5a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -863,6 +863,7 @@ class SecretKeyPacket(PublicKeyPacket):
         s2k_usage = int(data[offset])
         offset += 1
         s2k_specification = None
+        iv = None
         if s2k_usage == 0:
             # not encrypted
             symmetric_algorithm = 0
@@ -884,14 +885,11 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
-        if s2k_usage in (0, 255):
-            checksum = True
-            hash_ = False
-        elif s2k_usage == 254:
+        if s2k_usage == 254:
             hash_ = True
             checksum = False
         else:
-            checksum = False
+            checksum = True
             hash_ = False
 
         values += (s2k_specification, symmetric_algorithm, iv,
@@ -907,7 +905,8 @@ class SecretKeyPacket(PublicKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if encrypted_portion is None and exponent_d is None \
+                and exponent_x is None:
             raise ValueError
         Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
         self.version = version
@@ -1083,12 +1082,14 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 s2k_usage = 254
             data.append(s2k_usage)
+        else:
+            s2k_usage = self.symmetric_algorithm
         data.append(self.symmetric_algorithm)
         if self.s2k_specification is not None:
             data.extend(bytes(self.s2k_specification))
         if self.symmetric_algorithm != 0:
             data.extend(self.iv)
-        if self.encrypted_portion:
+        if self.encrypted_portion is not None:
             data.extend(self.encrypted_portion)
         else:
             if self.public_key_algorithm in (1, 2, 3):
@@ -1109,7 +1110,7 @@ class SecretKeyPacket(PublicKeyPacket):
                 key = self.passphrase
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
-                        self.iv, s2k_usage in (0, 255), s2k_usage == 254)
+                        self.iv, s2k_usage != 254, s2k_usage == 254)
             data.extend(encrypted_data)
 
         return data
@@ -1126,7 +1127,8 @@ class SecretSubkeyPacket(SecretKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if encrypted_portion is None and exponent_d is None \
+                and exponent_x is None:
             raise ValueError
         Packet.__init__(self, header_type,
                         constants.SECRET_SUBKEY_PACKET_TYPE)
@@ -1146,6 +1148,12 @@ class SecretSubkeyPacket(SecretKeyPacket):
         self.encrypted_portion = encrypted_portion
         self.checksum = checksum
         self.hash = hash_
+        self.passphrase = passphrase
+        self.exponent_d = exponent_d
+        self.prime_p = prime_p
+        self.prime_q = prime_q
+        self.multiplicative_inverse_u = multiplicative_inverse_u
+        self.exponent_x = exponent_x
 
 
 class CompressedDataPacket(Packet):
-- 
2.43.0


From 9f0099227b93e5c50fd42b6ae85d88f43eeea2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 045/129] fix: decrypt and encrypt secret key values with their
 checksum, and version 3 keys MPI by MPI

---
 pgp/packets/packets.py | 135 ++++++++++++++++++++++-------------------
 1 file changed, 72 insertions(+), 63 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 24dcf5a..97f57cb 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -944,10 +944,8 @@ class SecretKeyPacket(PublicKeyPacket):
             )
 
     def decrypt(self, passphrase):
-        if self.s2k_specification is not None:
-            key = self.s2k_specification.to_key(passphrase)
-        else:
-            key = passphrase
+        key = self.key_from_passphrase(
+            self.s2k_specification, self.symmetric_algorithm, passphrase)
         values = self.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
@@ -964,61 +962,73 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             raise ValueError
 
+    @classmethod
+    def key_from_passphrase(cls, s2k_specification, symmetric_algorithm,
+                            passphrase):
+        if s2k_specification is None:
+            if not symmetric_algorithm:
+                # not encrypted
+                return b''
+            # "...a symmetric encryption algorithm identifier, with the key
+            #  the MD5 hash of the passphrase"
+            s2k_specification = s2k.SimpleS2K(1, symmetric_algorithm)
+        return s2k_specification.to_key(passphrase)
+
     @classmethod
     def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
                            iv, checksum=False, hash_=False):
 
-        cipher = utils.get_symmetric_cipher(
-                    symmetric_algorithm, key, utils.OPENPGP, iv,
-                    syncable=True)
+        if version in (2, 3) and hash_:
+            raise ValueError
 
         unencrypted_data = bytearray()
+        encrypted_data = bytearray()
         for value in values:
-            unencrypted_data.extend(utils.int_to_mpi(value))
-
-        if version >= 4:
-            encrypted_data = cipher.encrypt(unencrypted_data)
-        elif version in (2, 3):
-            encrypted_data = bytearray()
-            for i in values:
-                bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-                bytes_required = int(math.ceil(bits_required / 8.0))
-                encrypted_data.extend(utils.int_to_2byte(bytes_required))
-                cipher.sync()
-                mpi_value_bytes = utils.int_to_bytes(i)
-                if len(mpi_value_bytes) < bytes_required:
-                    mpi_value_bytes = bytearray(
-                            [0] * (bytes_required - len(mpi_value_bytes))
-                        ) + mpi_value_bytes
-                encrypted_data.extend(cipher.encrypt(mpi_value_bytes))
-
+            mpi = utils.int_to_mpi(value)
+            unencrypted_data.extend(mpi)
+            if version in (2, 3):
+                # Each MPI is encrypted separately, without its bit count.
+                mpi_content = cls._transform_key_data(
+                    'encrypt', key, symmetric_algorithm, iv, mpi[2:])
+                iv = (bytes(iv or b'') + mpi_content)[-len(iv or b''):]
+                encrypted_data.extend(mpi[:2] + mpi_content)
+
+        verification = bytearray()
         if checksum:
-            checksum = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
-            if version >= 4:
-                encrypted_data.extend(cipher.encrypt(checksum))
-            else:
-                encrypted_data.extend(checksum)
+            verification = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
+        elif hash_:
+            verification = bytearray(SHA.new(unencrypted_data).digest())
 
-        if hash_:
-            hash_ = SHA.new(unencrypted_data).digest()
-            encrypted_data.extend(cipher.encrypt(hash_))
+        if version in (2, 3):
+            # With V3 keys, the checksum is stored in the clear.
+            encrypted_data.extend(verification)
+        else:
+            encrypted_data.extend(cls._transform_key_data(
+                'encrypt', key, symmetric_algorithm, iv,
+                unencrypted_data + verification))
         return encrypted_data
 
+    @classmethod
+    def _transform_key_data(cls, method, key, symmetric_algorithm, iv, data):
+        """Encrypt or decrypt data of any length in CFB mode."""
+        block_size = utils.symmetric_cipher_block_lengths.get(
+            symmetric_algorithm, None) or 8
+        cipher = utils.get_symmetric_cipher(
+                    symmetric_algorithm, key, utils.CFB, iv)
+        padding = bytes(-len(data) % block_size)
+        result = getattr(cipher, method)(bytes(data) + padding)
+        return result[:len(data)]
+
     @classmethod
     def decrypt_encrypted_key_portion(cls, version, key, symmetric_algorithm,
                                       iv, encrypted_data, checksum=False,
                                       hash_=False):
 
-        sym_block_size = utils.symmetric_cipher_block_lengths.get(
-            symmetric_algorithm, 8)
         if version >= 4:
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv)
-            padding = bytearray([0x00] * (
-                sym_block_size - (len(encrypted_data) % sym_block_size)))
-            decrypted_data = cipher.decrypt(
-                bytes(encrypted_data + padding)
-                )[:-len(padding)]
+            # With V4 keys, the checksum is encrypted like the
+            # algorithm-specific data.
+            decrypted_data = bytearray(cls._transform_key_data(
+                'decrypt', key, symmetric_algorithm, iv, encrypted_data))
         elif version in (2, 3):
             # "With V3 keys, the MPI bit count prefix (i.e., the first two
             #  octets) is not encrypted.  Only the MPI non-prefix data is
@@ -1026,34 +1036,34 @@ class SecretKeyPacket(PublicKeyPacket):
             #  beginning of each new MPI value, so that the CFB block boundary
             #  is aligned with the start of the MPI data."
 
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv,
-                        syncable=True)
+            if hash_:
+                raise ValueError
+            end = len(encrypted_data)
+            if checksum:
+                end -= 2
             offset = 0
             decrypted_data = bytearray()
-            while offset < len(encrypted_data):
-                cipher.sync()
-                decrypted_data.extend(
-                        encrypted_data[offset:offset + 2])
+            while offset < end:
                 mpi_length = utils.mpi_length(encrypted_data, offset)
+                decrypted_data.extend(encrypted_data[offset:offset + 2])
                 offset += 2
-                encrypted_mpi_content = \
-                    encrypted_data[offset:offset + mpi_length]
+                mpi_content = bytes(
+                    encrypted_data[offset:min(offset + mpi_length, end)])
                 offset += mpi_length
-                mpi_content = cipher.decrypt(encrypted_mpi_content)
-                decrypted_data.extend(mpi_content)
+                decrypted_data.extend(cls._transform_key_data(
+                    'decrypt', key, symmetric_algorithm, iv, mpi_content))
+                iv = (bytes(iv or b'') + mpi_content)[-len(iv or b''):]
+            # The checksum is stored in the clear.
+            decrypted_data.extend(encrypted_data[end:])
         else:
             raise ValueError
 
         data_length = len(decrypted_data)
         if checksum:
             data_length -= 2
-            if version >= 4:
-                # With V4 keys, the checksum is encrypted like the
-                # algorithm-specific data.
-                expected_checksum = utils.short_to_int(
-                        cipher.decrypt(utils.int_to_2byte(decrypted_data[-2:]))
-                    )
+            if data_length < 0:
+                raise ValueError
+            expected_checksum = utils.short_to_int(decrypted_data, data_length)
             actual_checksum = sum(decrypted_data[:-2]) & 0xffff
             if actual_checksum != expected_checksum:
                 raise ValueError
@@ -1104,10 +1114,9 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 raise ValueError
 
-            if self.s2k_specification is not None:
-                key = self.s2k_specification.to_key(self.passphrase)
-            else:
-                key = self.passphrase
+            key = self.key_from_passphrase(
+                self.s2k_specification, self.symmetric_algorithm,
+                self.passphrase)
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
                         self.iv, s2k_usage != 254, s2k_usage == 254)
-- 
2.43.0


From 2eb6a5cb3463d0fba9914f7846794c3c592052a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 046/129] fix: derive the key of secret keys protected without
 string-to-key specifier

---
 pgp/transferrable_keys.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5d9b372..893fd12 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -568,11 +568,10 @@ class BaseSecretKey(BasePublicKey):
         return sig
 
     def unlock(self, passphrase):
-        if self.s2k_specification is not None:
-            # TODO: Check encoding
-            key = self.s2k_specification.to_key(passphrase.encode('utf8'))
-        else:
-            key = passphrase
+        # TODO: Check encoding
+        key = packets.SecretKeyPacket.key_from_passphrase(
+            self.s2k_specification, self.symmetric_algorithm,
+            passphrase.encode('utf8'))
 
         values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
-- 
2.43.0


From c3544f248e270b6f5449a00f088bca3b2c6a458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 047/129] fix: drop an unused import

---
 pgp/packets/packets.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 97f57cb..507ed49 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -15,7 +15,6 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import datetime
-import math
 import time
 import warnings
 
-- 
2.43.0


From 90399b25a405df9e74a698ba4e922b2000673176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 048/129] fix: read user ID subpackets that are not valid UTF-8

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index c6bff5e..ca79dc0 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -490,7 +490,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        user_id = sub_data.decode('utf8')
+        user_id = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, user_id)
 
     def __init__(self, critical, user_id):
-- 
2.43.0


From 77e6b83e07f7a2fa159518acd9a43b3f06878fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 049/129] fix: read comment packets that are not valid UTF-8

---
 pgp/packets/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 507ed49..fa65716 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1436,7 +1436,7 @@ class OldCommentPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        comment = data.decode('utf8')
+        comment = data.decode('utf8', 'surrogateescape')
         result = cls(header_format, comment)
         result._content = data
         return result
@@ -1456,7 +1456,7 @@ class OldCommentPacket(Packet):
     def content(self):
         warnings.warn("The comment packet type, 16, only appears in an "
                       "OpenPGP draft.")
-        return self.comment.encode('utf8')
+        return self.comment.encode('utf8', 'surrogateescape')
 
 
 class UserAttributePacket(Packet):
@@ -1569,7 +1569,7 @@ class GpgCommentPacket(OldCommentPacket):
 
     @property
     def content(self):
-        return self.comment.encode('utf8')
+        return self.comment.encode('utf8', 'surrogateescape')
 
 
 class GpgControlPacket(Packet):
-- 
2.43.0


From 81f57f5e4de639ca5920b8ee1b0106f60a2ae73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 050/129] fix: read and write secret keys with GnuPG dummy and
 smart card S2K

---
 pgp/packets/packets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index fa65716..2ef3286 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -874,8 +874,9 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             symmetric_algorithm = s2k_usage
 
-        # 101 is GnuPG's dummy & smartcard mode
-        if s2k_usage not in (0, 101):
+        # GnuPG's dummy & smartcard modes have no initial vector
+        if s2k_usage != 0 and \
+                not isinstance(s2k_specification, s2k.GnuPGS2K):
             block_length = utils.symmetric_cipher_block_lengths.get(
                                 symmetric_algorithm, None)
             if block_length is None:
@@ -1096,7 +1097,8 @@ class SecretKeyPacket(PublicKeyPacket):
         data.append(self.symmetric_algorithm)
         if self.s2k_specification is not None:
             data.extend(bytes(self.s2k_specification))
-        if self.symmetric_algorithm != 0:
+        if self.symmetric_algorithm != 0 and \
+                not isinstance(self.s2k_specification, s2k.GnuPGS2K):
             data.extend(self.iv)
         if self.encrypted_portion is not None:
             data.extend(self.encrypted_portion)
-- 
2.43.0


From a968e8fe8f8564cc79824a947fc2ab65e5087d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 051/129] fix: name the default digest algorithms correctly

---
 pgp/commands/gpg/algorithm_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/commands/gpg/algorithm_helper.py b/pgp/commands/gpg/algorithm_helper.py
index 360755b..52c29c2 100644
--- a/pgp/commands/gpg/algorithm_helper.py
+++ b/pgp/commands/gpg/algorithm_helper.py
@@ -4,7 +4,7 @@ from pgp.commands.gpg.arguments import Compliance
 DEFAULT_CIPHERS = ['aes256', 'camellia256', 'twofish', 'blowfish', 'aes192',
                    'camellia192', 'aes', 'camellia128', 'cast5', '3des',
                    'idea']
-DEFAULT_DIGESTS = ['sha512', 'sha256', 'ripemd160', 'sha386', 'sha224'
+DEFAULT_DIGESTS = ['sha512', 'sha256', 'ripemd160', 'sha384', 'sha224',
                    'sha1', 'md5']
 DEFAULT_COMPRESSION = ['zip', 'zlib', 'bz2']
 
-- 
2.43.0


From 4e167768e8022df5d04a76abc51004dbf72a1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 052/129] fix: version 3 keys keep their validity period
 between packet and object

---
 pgp/transferrable_keys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 893fd12..2ac4aa7 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -196,7 +196,7 @@ class BasePublicKey(SignedMixin):
         creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
-        if version < 4 or expiration_days in (None, 0):
+        if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
             expiration_time = \
@@ -224,9 +224,11 @@ class BasePublicKey(SignedMixin):
         creation_time = int(time.mktime(self.creation_time.timetuple()))
         expiration_days = None
         if self.version < 4:
+            # "If this number is zero, the key does not expire."
+            expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - creation_time).days
+                expiration_days = (expiration_time - self.creation_time).days
 
         return (
             header_format, self.version, creation_time,
-- 
2.43.0


From 0396fedff8ddb4b4cf0ed65a7995c2dae4f4c3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 053/129] fix: DSA parameter order and RSA encrypt-only keys in
 key objects

---
 pgp/transferrable_keys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 2ac4aa7..5debfde 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -312,8 +312,8 @@ class BasePublicKey(SignedMixin):
             key_obj = K((self.prime_p, self.group_generator_g,
                          self.key_value_y))
         elif self.public_key_algorithm == 17:
-            key_obj = K((self.prime_p, self.group_order_q,
-                         self.group_generator_g, self.key_value_y))
+            key_obj = K((self.key_value_y, self.group_generator_g,
+                         self.prime_p, self.group_order_q))
         return key_obj
 
     @property
@@ -377,7 +377,7 @@ class BasePublicKey(SignedMixin):
                                        long(self.group_generator_g),
                                        long(self.key_value_y)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e)
                                        ))
@@ -496,7 +496,7 @@ class BaseSecretKey(BasePublicKey):
                                        long(self.key_value_y),
                                        long(self.exponent_x)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e),
                                        long(self.exponent_d),
-- 
2.43.0


From 59631c46fbbf2eee121bd45eb7cfcf141942d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 054/129] fix: setting the expiration time of a version 4 key

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5debfde..37c1081 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -298,7 +298,7 @@ class BasePublicKey(SignedMixin):
         if self.version in (2, 3):
             self._expiration_time = value
         elif self.version >= 4:
-            super(BasePublicKey, self).expiration_time = value
+            SignedMixin.expiration_time.fset(self, value)
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
-- 
2.43.0


From 33c4f296b50020989bf0b433acdfa68e5b341391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 055/129] fix: key attributes come from the matching attribute
 of the newest self-signature

---
 pgp/transferrable_keys.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 37c1081..8a3e31a 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -109,6 +109,7 @@ class SignedMixin(object):
                     ):
                 continue
             if last_signature_created < signature.creation_time:
+                last_signature_created = signature.creation_time
                 most_recent_selfsig = signature
 
         return most_recent_selfsig
@@ -116,6 +117,7 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
+            result = default
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
                 result = getattr(most_recent_selfsig, name, default)
@@ -153,13 +155,13 @@ class SignedMixin(object):
     may_certify_others = __selfsig_attribute('may_certify_others')
     may_sign_data = __selfsig_attribute('may_sign_data')
     may_encrypt_comms = __selfsig_attribute('may_encrypt_comms')
-    may_encrypt_storage = __selfsig_attribute('may_encrypt_comms')
-    may_be_used_for_auth = __selfsig_attribute('may_encrypt_comms')
+    may_encrypt_storage = __selfsig_attribute('may_encrypt_storage')
+    may_be_used_for_auth = __selfsig_attribute('may_be_used_for_auth')
     may_have_been_split = __selfsig_attribute('may_have_been_split')
     may_have_multiple_owners = \
         __selfsig_attribute('may_have_multiple_owners')
     supports_modification_detection = \
-        __selfsig_attribute('may_have_multiple_owners')
+        __selfsig_attribute('supports_modification_detection')
 
     del __selfsig_attribute
 
-- 
2.43.0


From 32c2c93360f73d5cc75555b9fe68d9e55a0383a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 056/129] fix: signed data of a secret subkey includes the
 primary key only once

---
 pgp/transferrable_keys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 8a3e31a..56673c6 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -655,6 +655,11 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         self._primary_public_key_ref = weakref.ref(primary_public_key)
         BaseSecretKey.__init__(self, *args, **kwargs)
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        # The public subkey's data already includes the primary key
+        return self.to_public_key().to_signable_data(signature_type,
+                                                     signature_version)
+
     def to_public_key(self):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
-- 
2.43.0


From ca8e38e62a025f28ccc4219bb07805d8cd84a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 057/129] fix: public forms of unlocked RSA keys do not carry
 the secret prime

---
 pgp/transferrable_keys.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 56673c6..564a49a 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -235,7 +235,7 @@ class BasePublicKey(SignedMixin):
         return (
             header_format, self.version, creation_time,
             self.public_key_algorithm, expiration_days, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_order_q,
+            self.exponent_e, self._public_prime_p, self.group_order_q,
             self.group_generator_g, self.key_value_y
             )
 
@@ -304,6 +304,13 @@ class BasePublicKey(SignedMixin):
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
+    @property
+    def _public_prime_p(self):
+        # In RSA, p is part of the secret key.
+        if self.public_key_algorithm in (1, 2, 3):
+            return None
+        return self.prime_p
+
     @property
     def _public_key_obj(self):
         key_obj = None
@@ -468,8 +475,8 @@ class BaseSecretKey(BasePublicKey):
         key = self._PublicClass(
             self.version, self.public_key_algorithm, self.creation_time,
             self.expiration_time, self.modulus_n, self.exponent_e,
-            self.prime_p, self.group_generator_g, self.group_order_q,
-            self.key_value_y, self.signatures)
+            self._public_prime_p, self.group_generator_g, self.group_order_q,
+            self.key_value_y, list(self.signatures))
         key.packet_header_type = self.packet_header_type
         return key
 
@@ -664,8 +671,8 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
             self.creation_time, self.expiration_time, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_generator_g,
-            self.group_order_q, self.key_value_y, self.signatures)
+            self.exponent_e, self._public_prime_p, self.group_generator_g,
+            self.group_order_q, self.key_value_y, list(self.signatures))
         key.packet_header_type = self.packet_header_type
         return key
 
@@ -1097,9 +1104,11 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
 
     def to_public_key(self):
         key = super(TransferableSecretKey, self).to_public_key()
-        key.user_ids = self.user_ids
-        key.user_attributes = self.user_attributes
+        key.user_ids = list(self.user_ids)
+        key.user_attributes = list(self.user_attributes)
         key.subkeys = list(map(lambda k: k.to_public_key(), self.subkeys))
+        for subkey in key.subkeys:
+            subkey._primary_public_key_ref = weakref.ref(key)
         return key
 
     def unlock(self, passphrase):
-- 
2.43.0


From 7d7cebe4c1255ff3878ab96c736c1f4d04e6a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 058/129] fix: a failed unlock leaves no part of the key
 unlocked

---
 pgp/transferrable_keys.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 564a49a..c429470 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -1113,8 +1113,13 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
 
     def unlock(self, passphrase):
         super(TransferableSecretKey, self).unlock(passphrase)
-        for sk in self.subkeys:
-            sk.unlock(passphrase)
+        try:
+            for sk in self.subkeys:
+                sk.unlock(passphrase)
+        except Exception:
+            # Don't leave some of the secrets exposed.
+            self.lock()
+            raise
 
     def lock(self):
         super(TransferableSecretKey, self).lock()
-- 
2.43.0


From 535264d4792af8ca21749e2e9e7357bc1fca5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 059/129] fix: creation time and issuer of version 3 signatures

---
 pgp/signature.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 827a31f..1f8fc36 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -135,8 +135,7 @@ class BaseSignature(object):
         hash2 = packet.hash2
         signature_values = packet.signature_values
         if version in (2, 3):
-            creation_time = datetime.datetime.fromtimestamp(
-                                packet.creation_time)
+            creation_time = packet.creation_time
             issuer_key_id = packet.key_id
             hashed_subpackets = []
             unhashed_subpackets = []
@@ -186,7 +185,7 @@ class BaseSignature(object):
         result.append(self.signature_type)
         if self.version < 4:
             result.extend(utils.int_to_4byte(
-                time.mktime(self.creation_time.timetuple())
+                int(time.mktime(self.creation_time.timetuple()))
             ))
         else:
             result.append(self.public_key_algorithm)
@@ -324,7 +323,7 @@ class BaseSignature(object):
 
     def _get_issuer_key_ids(self):
         if self.version in (2, 3):
-            return [self._issuer_key_ids]
+            return [self._issuer_key_id]
         elif self.version >= 4:
             return self._get_subpacket_values(
                 C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-- 
2.43.0


From 603d5f4fa0b7d4fa671edff2824119f0db99424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 060/129] fix: setting times and lists on signatures

---
 pgp/signature.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 1f8fc36..455899a 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -226,16 +226,18 @@ class BaseSignature(object):
         self.hash_algorithm = hash_algorithm
         self.hash2 = hash2
         self.signature_values = signature_values
+        self.hashed_subpackets = hashed_subpackets or []
+        self.unhashed_subpackets = unhashed_subpackets or []
         if version in (2, 3):
             self._creation_time = creation_time
             self._issuer_key_id = issuer_key_id
         elif version >= 4:
             if creation_time is not None:
-                self._creation_time = creation_time
+                self._update_subpacket_values(
+                    C.CREATION_TIME_SUBPACKET_TYPE,
+                    'time', creation_time)
             if issuer_key_id is not None:
                 self.issuer_key_ids = [issuer_key_id]
-        self.hashed_subpackets = hashed_subpackets or []
-        self.unhashed_subpackets = unhashed_subpackets or []
         if current_time_fn is None:
             current_time_fn = datetime.datetime.now
         self.get_current_time = current_time_fn
@@ -289,7 +291,7 @@ class BaseSignature(object):
                               critical=False):
         sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](
                 **{attr: value, 'critical': critical})
-        self._add_subpacket(sub)
+        self._add_subpacket(sub, hashed)
 
     def _remove_subpacket_values(self, type_, attr, value):
         subpackets = self._get_subpackets(type_)
@@ -309,15 +311,16 @@ class BaseSignature(object):
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
-        exp_time = self.signature__expiration_time
-        value = time.mktime(dt.timetuple())
+        exp_time = self.signature_expiration_time
+        value = int(time.mktime(dt.timetuple()))
         if self.version in (2, 3):
             self._creation_time = value
         elif self.version >= 4:
             self._update_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time', value)
-        self.signature__expiration_time = exp_time
+        if exp_time is not None:
+            self.signature_expiration_time = exp_time
 
     creation_time = property(_get_creation_time, _set_creation_time)
 
@@ -334,8 +337,12 @@ class BaseSignature(object):
         if self.version in (2, 3) and len(key_ids) != 1:
             raise ValueError
 
+        if self.version in (2, 3):
+            self._issuer_key_id = key_ids[0]
+            return
+
         for k in set(key_ids) | set(existing):
-            if k in existing and key_ids:
+            if k in existing and k in key_ids:
                 continue
             elif k in existing:
                 # Remove
@@ -370,9 +377,9 @@ class BaseSignature(object):
         else:
             td = dt - self.creation_time
             value = td.seconds + td.days * 86400
-            self._update_subpacket_values(
-                C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
-                'time', value)
+        self._update_subpacket_values(
+            C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
+            'time', value)
 
     signature_expiration_time = property(
         _get_signature_expiration_time,
@@ -426,7 +433,7 @@ class BaseSignature(object):
         regexes = [regex.pattern for regex in regexes]
 
         for k in set(regexes) | set(existing):
-            if k in existing and regexes:
+            if k in existing and k in regexes:
                 continue
             elif k in existing:
                 # Remove
@@ -467,7 +474,7 @@ class BaseSignature(object):
         existing = self.notations
 
         for k in set(notations) | set(existing):
-            if k in existing and notations:
+            if k in existing and k in notations:
                 continue
             elif k in existing:
                 # Remove
@@ -530,7 +537,7 @@ class BaseSignature(object):
         existing = self.embedded_signatures
 
         for k in set(embedded_signatures) | set(existing):
-            if k in existing and embedded_signatures:
+            if k in existing and k in embedded_signatures:
                 continue
             elif k in existing:
                 # Remove
@@ -619,7 +626,7 @@ class BaseSignature(object):
         existing = self.revocation_keys
 
         for k in set(revocation_keys) | set(existing):
-            if k in existing and revocation_keys:
+            if k in existing and k in revocation_keys:
                 continue
             elif k in existing:
                 # Remove
-- 
2.43.0


From b2f94eb4a27514436c5841d6993ea37a8c4f6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 061/129] fix: trust depth and amount of signatures

---
 pgp/signature.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 455899a..ea3b3a6 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -400,24 +400,24 @@ class BaseSignature(object):
     def _get_trust_amount(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount')
+            'amount')
 
     def _set_trust_amount(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            'amount', value)
 
     trust_amount = property(_get_trust_amount, _set_trust_amount)
 
     def _get_trust_depth(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth')
+            'depth')
 
     def _set_trust_depth(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth', value)
+            'depth', value)
 
     trust_depth = property(_get_trust_depth, _set_trust_depth)
 
-- 
2.43.0


From b0c97274dd634a6b27fd20e74460ef137f5be50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 062/129] fix: revocable attribute of signatures

---
 pgp/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index ea3b3a6..e7ba0c9 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -461,7 +461,7 @@ class BaseSignature(object):
             C.REVOCABLE_SUBPACKET_TYPE,
             'revocable', value)
 
-    revocable = property(_get_exportable, _set_exportable)
+    revocable = property(_get_revocable, _set_revocable)
 
     def _get_notations(self):
         subpackets = self._get_subpackets(C.NOTATION_SUBPACKET_TYPE)
-- 
2.43.0


From fe251800a267a2b8d83d9169b44a2c1a96e3dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 063/129] fix: revocation reason of signatures

---
 pgp/signature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index e7ba0c9..87c1283 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -503,13 +503,13 @@ class BaseSignature(object):
 
     def _get_revocation_reason(self):
         return self._get_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
             'revocation_reason')
 
     def _set_revocation_reason(self, value):
         self._update_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
+            'revocation_reason', value)
 
     revocation_reason = property(_get_revocation_reason,
                                  _set_revocation_reason)
-- 
2.43.0


From 762a91e8c9bbc8ecead1d9147121f2361183c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 064/129] fix: key expiration time is relative to the key's
 creation time

---
 pgp/packets/signature_subpackets.py |  2 +-
 pgp/signature.py                    | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index ca79dc0..6b03f7d 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -511,7 +511,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
         revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')
         return cls(critical, revocation_code, revocation_reason)
 
-    def __init__(self, critical, revocation_code, revocation_reason):
+    def __init__(self, critical, revocation_code=0, revocation_reason=u''):
         SignatureSubpacket.__init__(
                 self, constants.REVOCATION_REASON_SUBPACKET_TYPE, critical)
         assert revocation_code < 256
diff --git a/pgp/signature.py b/pgp/signature.py
index 87c1283..aa79196 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -560,12 +560,23 @@ class BaseSignature(object):
         # "If this is not present or has a value of zero, the key never
         #  expires."
         if not seconds:  # 0 or None
-            return seconds
-        return self.target.creation_time + datetime.timedelta(seconds=seconds)
+            return None
+        return (self._get_key_creation_time() +
+                datetime.timedelta(seconds=seconds))
+
+    def _get_key_creation_time(self):
+        key = self.parent
+        if not hasattr(key, 'public_key_algorithm'):
+            # User IDs and attributes
+            key = key.primary_public_key
+        return key.creation_time
 
     def _set_key_expiration_time(self, value):
-        delta = value - self.target.creation_time
-        seconds = delta.days * 86400 + delta.seconds
+        if value is None:
+            seconds = 0
+        else:
+            delta = value - self._get_key_creation_time()
+            seconds = delta.days * 86400 + delta.seconds
         self._update_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
             'time', seconds)
-- 
2.43.0


From 7346c91cca5cecdb49cce6cedd43ccfbf478221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 065/129] fix: target of signatures naming it by its digest

---
 pgp/signature.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index aa79196..946d6f9 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -829,14 +829,17 @@ class BaseSignature(object):
             hash_algorithm = sub.hash_algorithm
             pub_algorithm = sub.public_key_algorithm
             for sig in parent.signatures:
-                digest = utils.hash_packet_for_signature(
-                    sig.to_packet(), self.signature_type,
-                    self.signature_version,
-                    hash_algorithm,
-                    self.creation_time,
-                    pub_algorithm,
-                    )
-                if digest == expected_digest:
+                if (
+                        sig.hash_algorithm != hash_algorithm
+                        or sig.public_key_algorithm != pub_algorithm
+                        ):
+                    continue
+                hash_ = utils.get_hash_instance(hash_algorithm)
+                hash_.update(parent.to_signable_data(sig.signature_type,
+                                                     sig.version))
+                hash_.update(sig.to_signable_data(sig.signature_type,
+                                                  sig.version))
+                if bytearray(hash_.digest()) == expected_digest:
                     return sig
 
         # Fallback
-- 
2.43.0


From ea4c4150f15679e93cfbea0f4a4f56766b80008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 066/129] fix: transferable key packet order and packets after
 trust packets

---
 pgp/transferrable_keys.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index c429470..7872dcf 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -887,7 +887,8 @@ def validate_transferrable_key(packets, secret=False):
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
-                                 C.SIGNATURE_PACKET_TYPE):
+                                 C.SIGNATURE_PACKET_TYPE,
+                                 C.TRUST_PACKET_TYPE):
                         raise exceptions.InvalidKeyPacketOrder(
                                     "Signature Directly On Key may only "
                                     "appear immediately after the Public Key "
@@ -919,8 +920,9 @@ def validate_transferrable_key(packets, secret=False):
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
                 if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type !=
-                        C.SUBKEY_REVOCATION_SIGNATURE):
+                        or packets[j].signature_type not in (
+                            C.SUBKEY_BINDING_SIGNATURE,
+                            C.SUBKEY_REVOCATION_SIGNATURE)):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
@@ -954,12 +956,12 @@ def validate_transferrable_key(packets, secret=False):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "User attributes must appear before all "
                                 "subkeys")
-        elif this in (C.PUBLIC_SUBKEY_PACKET_TYPE,
-                      C.SECRET_SUBKEY_PACKET_TYPE):
+        elif this == subkey_packet_type:
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
+            if (i + 1 >= len(type_order)
+                    or type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
                     or packets[i + 1].signature_type !=
                         C.SUBKEY_BINDING_SIGNATURE):
 
@@ -982,9 +984,10 @@ class TransferablePublicKey(BasePublicKey):
 
     @classmethod
     def from_packets(cls, packets):
-        # TODO: HANDLE TRUST PACKETS
         packets = list(packets)
         validate_transferrable_key(packets, cls._secret)
+        # TODO: HANDLE TRUST PACKETS
+        packets = [p for p in packets if p.type != C.TRUST_PACKET_TYPE]
         i = 0
         primary_public_key = cls.from_packet(packets[i])
         primary_public_key_signatures = []
-- 
2.43.0


From b08da00c82fec2261ccc53f77f52d64b350bc8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 067/129] fix: signing does not change the caller's list of
 subpackets

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 7872dcf..2f72363 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -545,14 +545,14 @@ class BaseSecretKey(BasePublicKey):
             SigClass = BaseSignature
         creation_time = int(time.time())
         issuer_key_id = self.key_id
-        hashed_subpackets = hashed_subpackets or []
+        hashed_subpackets = list(hashed_subpackets or [])
         unhashed_subpackets = []
         creation_time_arg = None
         issuer_key_id_arg = None
         if version in (2, 3):
             creation_time_arg = creation_time
             issuer_key_id_arg = issuer_key_id
-        elif version == 4:
+        elif version >= 4:
             creation_time_subpacket = \
                 signature_subpackets.CreationTimeSubpacket(False,
                                                            creation_time)
-- 
2.43.0


From b3df25de5f62808ca15077a8f35d4e5481568a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 068/129] fix: representation of user attribute content

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 2f72363..ec14393 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -779,7 +779,7 @@ class UserAttributeContentItem(object):
         self.data = data
 
     def __repr__(self):
-        return '<{0} at 0x{2:x}>'.format(self.__class__.__name__, id(self))
+        return '<{0} at 0x{1:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
         if self.mime_type.split('/', 1)[0] != 'image':
-- 
2.43.0


From c288eef46a095b1e81f3a0dcc66371db78314383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 069/129] fix: user attribute contents keep the form they were
 read in

---
 pgp/transferrable_keys.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index ec14393..798a224 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -764,15 +764,25 @@ class UserAttributeContentItem(object):
 
     mime_type = None
     data = None
+    _subpacket = None
 
     @classmethod
     def from_subpacket(cls, subpacket):
-        if subpacket.image_format == C.JPEG_IMAGE_FORMAT:
+        if subpacket.sub_type == C.IMAGE_ATTRIBUTE_SUBPACKET_TYPE:
+            data = subpacket.data
+            image_format = subpacket.image_format
+        else:
+            data = subpacket.content
+            image_format = None
+        if image_format == C.JPEG_IMAGE_FORMAT:
             mime_type = 'image/jpeg'
         else:
-            mime_type = magic.from_buffer(subpacket.data[:1024],
-                                          mime=True).decode('ascii')
-        return cls(mime_type, subpacket.data)
+            mime_type = magic.from_buffer(bytes(data[:1024]), mime=True)
+            if isinstance(mime_type, bytes):
+                mime_type = mime_type.decode('ascii')
+        result = cls(mime_type, data)
+        result._subpacket = (mime_type, bytes(data), subpacket)
+        return result
 
     def __init__(self, mime_type, data):
         self.mime_type = mime_type
@@ -782,6 +792,11 @@ class UserAttributeContentItem(object):
         return '<{0} at 0x{1:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
+        if self._subpacket is not None:
+            mime_type, data, subpacket = self._subpacket
+            if self.mime_type == mime_type and bytes(self.data) == data:
+                # Unchanged, and may be signed as it was.
+                return subpacket
         if self.mime_type.split('/', 1)[0] != 'image':
             return None
         header_version = 1
-- 
2.43.0


From ee39511e9653a9498c3c76791366f1d6ce11181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 070/129] fix: chained exceptions on Python 3

---
 pgp/py3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/py3.py b/pgp/py3.py
index 1b8f554..c015f8b 100644
--- a/pgp/py3.py
+++ b/pgp/py3.py
@@ -16,4 +16,5 @@
 
 
 def raise_with(new, old):
-    eval('raise new with old')
+    new.__cause__ = old
+    raise new
-- 
2.43.0


From 3012585d8c34c10c9f7006f851d27d25c4f4ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 071/129] fix: verify RSA signatures that start with a zero
 octet; undecided for algorithms that cannot sign

---
 pgp/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 7179064..7d6f5dc 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -128,7 +128,8 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
-        s = long_to_bytes(values[0])
+        # The signature is as long as the modulus
+        s = long_to_bytes(values[0], (public_key.size() + 8) // 8)
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
     elif pub_algorithm_type == 20:
         # ELG
@@ -151,7 +152,7 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
         return public_key.verify(bytes_to_long(digest), values)
     else:
         # TODO: complete this
-        raise ValueError
+        raise PublicKeyAlgorithmCannotSign(pub_algorithm_type)
 
 
 def get_hash_instance(type_):
-- 
2.43.0


From f3e07670a345360d9415a009e97bb39956bf526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 072/129] fix: signatures on keys are checked with the key's
 public values

---
 pgp/signature_verification.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 51764bf..2254629 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -178,7 +178,14 @@ def key_verify(expected_hash, signature, key):
     the data being signed using the key that made the signature.
     """
 
-    return key.verify(signature, expected_hash)
+    if key.public_key_algorithm != signature.public_key_algorithm:
+        raise SignatureVerificationFailed(
+            'Signature not made by this key.')
+
+    if not utils.verify_hash(signature.public_key_algorithm,
+                             key._get_key_obj(), expected_hash,
+                             signature.signature_values):
+        raise SignatureVerificationFailed()
 
 
 def check_signature(key, signature, hash_, strict=False, current_time=None):
@@ -187,8 +194,7 @@ def check_signature(key, signature, hash_, strict=False, current_time=None):
     """
 
     key_expired, key_revoked = \
-            check_signature_values(key, signature, strict,
-                                   current_time=current_time)
+            check_signature_values(key, signature, current_time, strict)
 
     # Perform the quick check first before busting out the public key
     # algorithms
@@ -196,7 +202,7 @@ def check_signature(key, signature, hash_, strict=False, current_time=None):
     if bytearray(digest[:2]) != signature.hash2:
         raise SignatureDigestMismatch()
 
-    key_verify(key, hash_, signature)
+    key_verify(hash_, signature, key)
 
     return key_expired, key_revoked
 
-- 
2.43.0


From ce1aef7c41cd0c6631f267b8a887d105b402dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 073/129] fix: signatures on keys are checked against the
 octets that were signed

---
 pgp/signature_verification.py | 62 ++++++++++++-----------------------
 1 file changed, 21 insertions(+), 41 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 2254629..43b8ca0 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -69,30 +69,20 @@ def check_back_signatures(key, subkey_binding_signature, strict=False,
     exists.
     """
 
+    found = False
+    subkey = subkey_binding_signature.parent
     for sig in subkey_binding_signature.embedded_signatures:
         if sig.signature_type == constants.PRIMARY_KEY_BINDING_SIGNATURE:
-            hashed_subpacket_data = get_hashed_subpacket_data(
-                                        subkey_binding_signature
-                                        )
-            target = subkey_binding_signature.target()
-            if not target:
-                continue
-            hash_ = utils.hash_packet_for_signature(
-                        key.to_packet(),
-                        sig.signature_type,
-                        sig.version,
-                        sig.hash_algorithm,
-                        sig.creation_time,
-                        sig.public_key_algorithm,
-                        target.to_packet(),
-                        hashed_subpacket_data
-                        )
+            # The signed data is the same as that of the binding signature,
+            # but made by the subkey.
+            hash_ = get_signature_hash(subkey, sig)
             try:
-                check_signature(key, sig, hash_, strict, current_time)
+                check_signature(subkey, sig, hash_, strict, current_time)
             except InvalidSignature as e:
-                raise_with(InvalidBackSignature(target.key_id), e)
+                raise_with(InvalidBackSignature(subkey.key_id), e)
+            found = True
 
-    if subkey_binding_signature.may_sign_data:
+    if subkey_binding_signature.may_sign_data and not found:
         # "For subkeys that can issue signatures, the subkey binding
         #  signature MUST contain an Embedded Signature subpacket with a
         #  primary key binding signature (0x19) issued by the subkey on
@@ -163,14 +153,15 @@ def check_signature_values(key, signature, current_time=None, strict=False):
     return key_expired, key_revoked
 
 
-def get_hashed_subpacket_data(signature):
-    """Get the hashed subpacket data from a signature packet's data."""
+def get_signature_hash(target, signature):
+    """Get the hash of the data signed by a signature of this target."""
 
-    sig_version = signature.version
-    if sig_version in (2, 3):
-        return bytearray()
-    elif sig_version >= 4:
-        return b''.join(map(bytes, signature.hashed_subpackets))
+    hash_ = utils.get_hash_instance(signature.hash_algorithm)
+    hash_.update(target.to_signable_data(signature.signature_type,
+                                         signature.version))
+    hash_.update(signature.to_signable_data(signature.signature_type,
+                                            signature.version))
+    return hash_
 
 
 def key_verify(expected_hash, signature, key):
@@ -214,8 +205,7 @@ def validate_key_signature(signature, hash_, key, strict=False,
     key_expired, key_revoked = \
             check_signature(key, signature, hash_, strict,
                             current_time=current_time)
-    parent = key.public_key_parent
-    if parent:
+    if signature.signature_type == constants.SUBKEY_BINDING_SIGNATURE:
         check_back_signatures(key, signature, strict, current_time)
 
     return key_expired, key_revoked
@@ -244,20 +234,10 @@ def validate_signature(target, signature, signing_key, public_key=None,
     item set to its public key data.
     """
 
-    hashed_subpacket_data = get_hashed_subpacket_data(
-                                signature
-                                )
+    if public_key is None:
+        public_key = getattr(target, 'primary_public_key', None) or target
     sig_type = signature.signature_type
-    hash_ = utils.hash_packet_for_signature(
-                target.to_packet(),
-                signature.signature_type,
-                signature.version,
-                signature.hash_algorithm,
-                signature.creation_time,
-                signature.public_key_algorithm,
-                public_key.to_packet(),
-                hashed_subpacket_data
-                )
+    hash_ = get_signature_hash(target, signature)
     result = False, False
     if sig_type == constants.KEY_REVOCATION_SIGNATURE:
         # public key revocation
-- 
2.43.0


From 28251cecba17bb58f0609f801dc2e7c43af9f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 074/129] fix: certification revocations are only valid if they
 verify

---
 pgp/signature_verification.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 43b8ca0..af9e0a4 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -289,9 +289,8 @@ def validate_signature(target, signature, signing_key, public_key=None,
             raise SignatureVerificationFailed('Signature cannot be revoked')
         elif signature.target.creation_time > signature.creation_time:
             raise SignatureCreatedBeforeContent()
-        # TODO: FIX THIS
-        # result = check_signature(signing_key, signature, hash_,
-        #                          strict)
+        result = check_signature(signing_key, signature, hash_,
+                                 strict, current_time)
     else:
         # 0x00, 0x01, 0x02, 0x30, 0x40 & 0x50 do not apply to public keys
         raise UnexpectedSignatureType(sig_type)
-- 
2.43.0


From 6566df6843f976b21047b9363791d66179f97750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 075/129] fix: expired and revoked signing keys are recorded on
 the signature

---
 pgp/signature_verification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index af9e0a4..d3f4a01 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -329,9 +329,9 @@ def validate_signatures(target, db, strict=False):
                     sig.validated = None
                 else:
                     sig.validated = True
+                    sig.issuer_key_expired = key_expired
+                    sig.issuer_key_revoked = key_revoked
                     break
-                sig.issuer_key_expired = key_expired
-                sig.issuer_key_revoked = key_revoked
 
     if isinstance(target, (TransferablePublicKey, TransferableSecretKey)):
         for uid in target.user_ids:
-- 
2.43.0


From 2c92ae4f784e69e0905916ffe98a9f5f05d1771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 076/129] fix: designated revokers are those named by the key
 itself

---
 pgp/signature_verification.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index d3f4a01..51f2aa9 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -57,7 +57,10 @@ def get_revocation_keys(key):
     """
 
     for s in key.signatures:
-        if s.signature_type == constants.KEY_REVOCATION_SIGNATURE:
+        if (
+                s.signature_type == constants.SIGNATURE_DIRECTLY_ON_A_KEY
+                and key.key_id in s.issuer_key_ids
+                ):
             revkeys = s.revocation_keys
             for revkey_info in revkeys:
                 yield revkey_info.fingerprint[-16:]
@@ -129,7 +132,7 @@ def check_signature_values(key, signature, current_time=None, strict=False):
             if sig.signature_type in (constants.SUBKEY_BINDING_SIGNATURE,
                                       constants.SIGNATURE_DIRECTLY_ON_A_KEY):
                 revocation_keys.extend([
-                    rev_key.fingerprint[-8:]
+                    rev_key.fingerprint[-16:]
                     for rev_key
                     in sig.revocation_keys
                     ])
@@ -143,9 +146,7 @@ def check_signature_values(key, signature, current_time=None, strict=False):
                     if strict:
                         raise SigningKeyHasBeenRevoked(key.key_id)
                     key_revoked = True
-                elif (revocation_keys and
-                      key.key_id[-8:] in revocation_keys):
-
+                elif set(revocation_keys) & set(sig.issuer_key_ids):
                     if strict:
                         raise SigningKeyHasBeenRevoked(key.key_id)
                     key_revoked = True
@@ -218,10 +219,12 @@ def check_revocation_keys(key, signature, hash_, signing_key,
     """
 
     for rk in get_revocation_keys(key):
-        if rk[-len(key.key_id):] == key.key_id:
+        if rk[-len(signing_key.key_id):] == signing_key.key_id:
             return validate_key_signature(signature, hash_, signing_key,
                                           strict, current_time)
 
+    raise SignatureVerificationFailed('Key cannot be revoked by this key')
+
 
 def validate_signature(target, signature, signing_key, public_key=None,
                        strict=False, current_time=None):
-- 
2.43.0


From 12d1f81740e8c5e760f2c8cbd791f31a4e7a6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 077/129] fix: SignedByRevokedKey means revoked before the
 signature was made

---
 pgp/signature_verification.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 51f2aa9..6e90482 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -140,14 +140,11 @@ def check_signature_values(key, signature, current_time=None, strict=False):
             if sig.signature_type in (constants.SUBKEY_REVOCATION_SIGNATURE,
                                       constants.KEY_REVOCATION_SIGNATURE):
                 revocation_time = sig.creation_time
-                if revocation_time < key.creation_time and strict:
-                    raise SignedByRevokedKey(key.key_id)
-                if revocation_key_parent.key_id in sig.issuer_key_ids:
-                    if strict:
-                        raise SigningKeyHasBeenRevoked(key.key_id)
-                    key_revoked = True
-                elif set(revocation_keys) & set(sig.issuer_key_ids):
+                revokers = [revocation_key_parent.key_id] + revocation_keys
+                if set(revokers) & set(sig.issuer_key_ids):
                     if strict:
+                        if revocation_time < sig_creation_time:
+                            raise SignedByRevokedKey(key.key_id)
                         raise SigningKeyHasBeenRevoked(key.key_id)
                     key_revoked = True
 
-- 
2.43.0


From 460c9bfb73b66fc00d7c479d8638b0ec53bfe423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 078/129] fix: signatures directly on a key are checked with
 the key that made them

---
 pgp/signature_verification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 6e90482..7f7d50b 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -260,7 +260,7 @@ def validate_signature(target, signature, signing_key, public_key=None,
                                  strict, current_time)
     elif sig_type == constants.SIGNATURE_DIRECTLY_ON_A_KEY:
         # direct key signature
-        result = check_signature(public_key, signature, hash_,
+        result = check_signature(signing_key, signature, hash_,
                                  strict, current_time)
     elif sig_type in (constants.GENERIC_CERTIFICATION,
                       constants.CASUAL_CERTIFICATION,
-- 
2.43.0


From 35cf09a4d090ddff413c70e5ef2a01ae713c3bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 079/129] fix: key ID of version 3 key packets

---
 pgp/packets/packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 2ef3286..aa6b47b 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -827,6 +827,9 @@ class PublicKeyPacket(Packet):
 
     @property
     def key_id(self):
+        if self.version < 4 and self.modulus is not None:
+            # RFC 4880 section 12.2: the low 64 bits of the modulus
+            return utils.int_to_hex(self.modulus, 16)
         return self.fingerprint[-16:]
 
     @property
-- 
2.43.0


From 1ac0094dae445c2d310f93a91ddf378524acc846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 080/129] fix: setting one key flag does not set the others

---
 pgp/packets/signature_subpackets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6b03f7d..8238447 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -454,10 +454,10 @@ class KeyFlagsSubpacket(SignatureSubpacket):
                    may_be_used_for_auth, may_have_been_split,
                    may_have_multiple_owners, raw_flags=sub_data)
 
-    def __init__(self, critical, may_certify_others=True, may_sign_data=True,
-                 may_encrypt_comms=True, may_encrypt_storage=True,
-                 may_be_used_for_auth=True, may_have_been_split=True,
-                 may_have_multiple_owners=True, raw_flags=None):
+    def __init__(self, critical, may_certify_others=False, may_sign_data=False,
+                 may_encrypt_comms=False, may_encrypt_storage=False,
+                 may_be_used_for_auth=False, may_have_been_split=False,
+                 may_have_multiple_owners=False, raw_flags=None):
         SignatureSubpacket.__init__(self, constants.KEY_FLAGS_SUBPACKET_TYPE,
                                     critical)
         self.may_certify_others = may_certify_others
-- 
2.43.0


From e2deeae3229e8c16eeb90e486ac6b2f55fd73217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 081/129] fix: sign text and octets without failing to
 reference them

---
 pgp/signature.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 946d6f9..7681916 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -219,7 +219,11 @@ class BaseSignature(object):
                  unhashed_subpackets=None, current_time_fn=None):
 
         if target:
-            self._target_ref = weakref.ref(target)
+            try:
+                self._target_ref = weakref.ref(target)
+            except TypeError:
+                # text and octets cannot be weakly referenced
+                self._target_ref = lambda: target
         self.version = version
         self.signature_type = signature_type
         self.public_key_algorithm = public_key_algorithm
-- 
2.43.0


From c585fa4c35cc9ec74cdf58d57d72b0cf569f593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 082/129] fix: hash a signature that is signed as its body
 without unhashed data

---
 pgp/packets/packets.py    | 15 +++++++++++----
 pgp/signature.py          | 11 +++++++++++
 pgp/transferrable_keys.py |  7 ++++---
 pgp/utils.py              |  5 ++---
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index aa6b47b..86cc38d 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -467,6 +467,9 @@ class SignaturePacket(Packet):
 
     @property
     def content(self):
+        return self._get_content(self.unhashed_subpackets)
+
+    def _get_content(self, unhashed_subpackets):
         data = bytearray()
         sig_version = self.version
         data.append(sig_version)
@@ -478,7 +481,7 @@ class SignaturePacket(Packet):
             unhashed_subpacket_data = bytearray()
             for sp in self.hashed_subpackets:
                 hashed_subpacket_data.extend(bytes(sp))
-            for sp in self.unhashed_subpackets:
+            for sp in unhashed_subpackets:
                 unhashed_subpacket_data.extend(bytes(sp))
 
             data.extend(utils.int_to_2byte(len(hashed_subpacket_data)))
@@ -529,10 +532,14 @@ class SignaturePacket(Packet):
         return result
 
     def get_content_for_signature_hash(self, signature_version):
+        # "The unhashed subpacket data of the Signature packet being hashed is
+        #  not included in the hash, and the unhashed subpacket data length
+        #  value is set to zero."
+        # https://tools.ietf.org/html/rfc4880#section-5.2.4
+        packet_data = self._get_content([])
         result = bytearray([0x88])
-        sig_hash_data = self.get_signature_hash_trailer()
-        result.extend(utils.int_to_2byte(len(sig_hash_data)))
-        result.extend(sig_hash_data)
+        result.extend(utils.int_to_4byte(len(packet_data)))
+        result.extend(packet_data)
         return result
 
 
diff --git a/pgp/signature.py b/pgp/signature.py
index 7681916..935aa9b 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -34,6 +34,17 @@ from pgp.user_id import parse_user_id
 _marker = object()
 
 
+def get_signable_data(item, signature_type, signature_version=3):
+    """The octets of an item that a signature over it covers, without the
+    trailer that the signature itself contributes.
+    """
+
+    if isinstance(item, BaseSignature):
+        return item.to_packet().get_content_for_signature_hash(
+            signature_version)
+    return item.to_signable_data(signature_type, signature_version)
+
+
 @implementer(interfaces.INotation)
 class Notation(object):
 
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 798a224..4b6b4a5 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -32,6 +32,7 @@ from pgp.packets import packets
 from pgp.packets import signature_subpackets
 from pgp.packets import user_attribute_subpackets
 from pgp.signature import BaseSignature
+from pgp.signature import get_signable_data
 from pgp.user_id import parse_user_id
 from pgp import utils
 
@@ -409,8 +410,8 @@ class BasePublicKey(SignedMixin):
 
         key_obj = self._get_key_obj()
         hash_ = utils.get_hash_instance(signature.hash_algorithm)
-        hash_.update(item.to_signable_data(signature.signature_type,
-                                           signature.version))
+        hash_.update(get_signable_data(item, signature.signature_type,
+                                       signature.version))
         hash_.update(signature.to_signable_data(signature.signature_type,
                                                 signature.version))
         if hash_.digest()[:2] != signature.hash2:
@@ -538,7 +539,7 @@ class BaseSecretKey(BasePublicKey):
             hash_.update(item)
 
         else:
-            hash_.update(item.to_signable_data(signature_type, version))
+            hash_.update(get_signable_data(item, signature_type, version))
         if isinstance(item, (BasePublicKey, UserID, UserAttribute)):
             SigClass = KeySignature
         else:
diff --git a/pgp/utils.py b/pgp/utils.py
index 7d6f5dc..74730e2 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -531,9 +531,8 @@ def hash_packet_for_signature(packet_for_hash,
         hash_key(data_to_hash, public_key_packet_data)
         hash_key(data_to_hash, packet_data_for_hash)
     elif signature_type == constants.THIRD_PARTY_CONFIRMATION_SIGNATURE:
-        data_to_hash.append(0x88)
-        data_to_hash.extend(int_to_4byte(len(packet_data_for_hash)))
-        data_to_hash.extend(packet_data_for_hash)
+        data_to_hash.extend(
+            packet_for_hash.get_content_for_signature_hash(signature_version))
     elif signature_type in (constants.SIGNATURE_OF_A_BINARY_DOCUMENT,
                             constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT):
         data_to_hash.extend(packet_data_for_hash)
-- 
2.43.0


From 9ad98ef9766ed615c6f6530cb84762a711c622b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 083/129] fix: keep the length octets of subpackets, which
 signatures cover

---
 pgp/packets/signature_subpackets.py      | 16 +++++++++-------
 pgp/packets/user_attribute_subpackets.py | 12 +++++++++---
 pgp/utils.py                             | 11 +++++++++++
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 8238447..e94c90d 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -23,6 +23,8 @@ from pgp.packets import constants
 
 class SignatureSubpacket(object):
 
+    _parsed_length = None
+
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         return cls(type_, critical, sub_data)
@@ -49,9 +51,8 @@ class SignatureSubpacket(object):
         data = self.content
         data_len = len(data) + 1  # For the type
         result = bytearray()
-        packet_length_bytes, _ = \
-                utils.new_packet_length_to_bytes(data_len, False)
-        result.extend(packet_length_bytes)
+        result.extend(
+            utils.subpacket_length_to_bytes(data_len, self._parsed_length))
         raw = self.type + (0x80 if self.critical else 0x00)
         result.append(raw)
         result.extend(data)
@@ -655,7 +656,9 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 
 def signature_subpacket_from_data(data, offset=0):
+    start = offset
     offset, length = utils.subpacket_length(data, offset)
+    parsed_length = data[start:offset]
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
@@ -664,7 +667,6 @@ def signature_subpacket_from_data(data, offset=0):
     sub_data = data[offset:offset + length]
     offset += length
     cls = SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, SignatureSubpacket)
-    return (
-        cls.from_subpacket_content(subpacket_type, critical, sub_data),
-        offset
-        )
+    result = cls.from_subpacket_content(subpacket_type, critical, sub_data)
+    result._parsed_length = parsed_length
+    return result, offset
diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index a5c9d8f..91df72f 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -20,6 +20,8 @@ from pgp import utils
 
 class UserAttributeSubpacket(object):
 
+    _parsed_length = None
+
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
         return cls(sub_type, sub_data)
@@ -43,8 +45,8 @@ class UserAttributeSubpacket(object):
         data = self.content
         result = bytearray()
         # +1 for sub type
-        result.extend(utils.new_packet_length_to_bytes(
-            len(data) + 1, False)[0])
+        result.extend(utils.subpacket_length_to_bytes(
+            len(data) + 1, self._parsed_length))
         result.append(self.sub_type)
         result.extend(data)
         return bytes(result)
@@ -121,7 +123,9 @@ USER_ATTRIBUTE_SUBPACKET_TYPES = {
 
 def user_attribute_subpacket_from_data(data, offset=0):
     sub_data = bytearray()
+    start = offset
     offset, sub_len = utils.subpacket_length(data, offset)
+    parsed_length = data[start:offset]
     sub_type = int(data[offset])
     # + 1 for sub type
     sub_data_start = offset + 1
@@ -129,4 +133,6 @@ def user_attribute_subpacket_from_data(data, offset=0):
     sub_data.extend(data[sub_data_start:sub_data_end])
     offset = sub_data_end
     cls = USER_ATTRIBUTE_SUBPACKET_TYPES.get(sub_type, UserAttributeSubpacket)
-    return cls.from_subpacket_content(sub_type, sub_data), offset
+    result = cls.from_subpacket_content(sub_type, sub_data)
+    result._parsed_length = parsed_length
+    return result, offset
diff --git a/pgp/utils.py b/pgp/utils.py
index 74730e2..f09377a 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -790,6 +790,17 @@ def subpacket_length(data, offset):
     return offset, length
 
 
+def subpacket_length_to_bytes(data_length, parsed=None):
+    """The octets encoding the length of a subpacket. Octets that it was
+    parsed from are kept while they are still right, since there is more
+    than one way to write most lengths and signatures cover these octets.
+    """
+
+    if parsed is not None and subpacket_length(parsed, 0)[1] == data_length:
+        return bytearray(parsed)
+    return new_packet_length_to_bytes(data_length, False)[0]
+
+
 def new_packet_length_to_bytes(data_length, allow_partial):
     result = bytearray()
     remaining = 0
-- 
2.43.0


From 2406df2322aa04db70b3728f14f6c3ab8a044d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 084/129] fix: check the back signature of subkey bindings

---
 pgp/signature_verification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 7f7d50b..210bbe2 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -256,8 +256,8 @@ def validate_signature(target, signature, signing_key, public_key=None,
         # key binding
         if public_key.key_id not in signature.issuer_key_ids:
             raise InvalidSubkeyBindingSignature()
-        result = check_signature(public_key, signature, hash_,
-                                 strict, current_time)
+        result = validate_key_signature(signature, hash_, public_key,
+                                        strict, current_time)
     elif sig_type == constants.SIGNATURE_DIRECTLY_ON_A_KEY:
         # direct key signature
         result = check_signature(signing_key, signature, hash_,
-- 
2.43.0


From 1acedb6e9d76b5c69fbfa9482a2b974a4e925b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 085/129] fix: encrypt and decrypt data without integrity
 protection

---
 pgp/message.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 972535d..daec387 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -408,7 +408,8 @@ class SymmetricallyEncryptedMessageData(object):
         if integrity_protected:
             version = packet.version
         return cls(
-            encrypted_data=packet.encrypted_data,
+            encrypted_data=(packet.encrypted_data if integrity_protected
+                            else packet.data),
             integrity_protected=integrity_protected,
             version=version
             )
@@ -425,25 +426,22 @@ class SymmetricallyEncryptedMessageData(object):
         block_len = utils.symmetric_cipher_block_lengths[symmetric_algo]
         iv = Random.new().read(block_len)
         data = bytearray()
-        cipher = utils.get_symmetric_cipher(
-            symmetric_algo,
-            key,
-            utils.CFB,
-            b'\x00' * block_len
-            )
-        padding = 0
         if not self.integrity_protected:
-            padding = block_len - len(message) % block_len
-            message = message + b'\x00' * padding
-            data.extend(cipher.encrypt(iv + iv[-2:]))
+            # This mode emits the encrypted prefix first.
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
-                utils.CFB,
+                utils.OPENPGP,
                 iv
                 )
-            data.extend(cipher.encrypt(message))
+            data.extend(cipher.encrypt(bytes(message)))
         else:
+            cipher = utils.get_symmetric_cipher(
+                symmetric_algo,
+                key,
+                utils.CFB,
+                b'\x00' * block_len
+                )
             padding = block_len - (len(message) + 2 + 22) % block_len
             data.extend(cipher.encrypt(iv))
             hash_ = SHA.new(iv)
@@ -486,6 +484,8 @@ class SymmetricallyEncryptedMessageData(object):
             padding = block_len - (len(encrypted_data) - offset) % block_len
             encrypted_data += b'\x00' * padding
         else:
+            # "The CFB state is resynchronized" after the prefix.
+            offset += block_len + 2
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
@@ -493,12 +493,14 @@ class SymmetricallyEncryptedMessageData(object):
                 encrypted_iv)
 
         decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
-        decrypted_data = decrypted_data[:-padding]
+        if padding:
+            decrypted_data = decrypted_data[:-padding]
         # We run into trouble here with partial body lengths and the MDC.
         # Let's make pretend.
         mdc_data = bytearray()
         main_data = decrypted_data
-        if decrypted_data[-22:-20] == b'\xd3\x14':
+        if self.integrity_protected and \
+                decrypted_data[-22:-20] == b'\xd3\x14':
             # It's there. Hold it back.
             mdc_data = decrypted_data[-22:]
             main_data = decrypted_data[:-22]
-- 
2.43.0


From 49c17cef7707ed236c1eb178c8ad920768ec783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 086/129] fix: reject modification detection codes with another
 header

---
 pgp/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index daec387..b0c2e62 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -517,8 +517,8 @@ class SymmetricallyEncryptedMessageData(object):
             decrypted_packets.append(packet)
 
         if self.integrity_protected:
-            if (decrypted_packets[-1].type !=
-                    C.MODIFICATION_DETECTION_CODE_PACKET_TYPE):
+            # The code is always the last 22 octets, header included.
+            if not mdc_data:
                 raise ValueError(
                     'Integrity protected message is missing modification '
                     'detection code.')
-- 
2.43.0


From e39db1e639d9ad21fdaa36455e7d6cd27333799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 087/129] fix: pass the initialization vector where the OpenPGP
 mode finds it

---
 pgp/utils.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index f09377a..4c32823 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -286,21 +286,13 @@ def get_symmetric_cipher(type_, key, mode, iv=None, segment_size=None,
     if syncable and cipher not in (aidea, twofish, camellia):
         # We need to wrap the PyCrypto implementation so we can re-sync
         # for OpenPGP's weird CFB mode.
-        try:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               IV=bytes(iv),
-                                               segment_size=segment_size)
-        except TypeError:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               iv=bytes(iv),
-                                               segment_size=segment_size)
-
-    try:
-        return cipher.new(bytes(key), mode, IV=bytes(iv),
-                          segment_size=segment_size)
-    except TypeError:
-        return cipher.new(bytes(key), mode, iv=bytes(iv),
-                          segment_size=segment_size)
+        return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
+                                           bytes(iv),
+                                           segment_size=segment_size)
+
+    # Named "IV" in most modes, but "iv" in the OpenPGP mode.
+    return cipher.new(bytes(key), mode, bytes(iv),
+                      segment_size=segment_size)
 
 
 class NoopCompression(object):
-- 
2.43.0


From 43cbe5dfba8d82c98cfacd2c9d4c907853d13436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 088/129] fix: encrypt with a random exponent under ElGamal
 keys

---
 pgp/packets/packets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 86cc38d..41d82f4 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -19,6 +19,7 @@ import time
 import warnings
 
 from Crypto import Random
+import Crypto.Random.random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
 from Crypto.Hash import SHA
 
@@ -61,7 +62,9 @@ class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
         # Step 2b
         em = b'\x00\x02' + ps + b'\x00' + message
         # Step 3a (OS2IP), step 3b (RSAEP), part of step 3c (I2OSP)
-        m = self._key.encrypt(em, 0)
+        # A new random exponent for each message
+        x = Random.random.StrongRandom().randint(1, self._key.p - 2)
+        m = self._key.encrypt(em, x)
         # Skip step 3c (I2OSP)
         # ...
         return m
-- 
2.43.0


From 781b45569add6934a1c068a1771b436e4e5d99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 089/129] fix: decrypt session keys whose ciphertext begins
 with a zero octet

---
 pgp/packets/packets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 41d82f4..f616983 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -228,8 +228,9 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             ems.append(bytes(em))
 
         if len(ems) == 1:
-            # RSA takes a single argument.
-            em = ems[0]
+            # RSA takes a single argument, as long as the modulus. The MPI has
+            # no leading zero octets.
+            em = ems[0].rjust((secret_key_obj.size() + 8) // 8, b'\x00')
         else:
             # ElGamal takes a 2-tuple.
             em = tuple(ems)
-- 
2.43.0


From df7e284ad078d1929ab1e401e8a46f142a877319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 090/129] fix: reject decrypted session keys too short for a
 checksum

---
 pgp/packets/packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index f616983..6a401a0 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -251,6 +251,9 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             raise NotImplementedError()
             m = decrypted_values[1]
 
+        if len(m) < 3:
+            raise ValueError
+
         symmetric_algorithm = int(m[0])
         expected_checksum = (
                 (m[-2] << 8) +
-- 
2.43.0


From 09c8edb8e850af262c7dddb04aaf8f3bbc6dac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 091/129] fix: leave the key ID of hidden recipients out of
 session key packets

---
 pgp/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index b0c2e62..f615a79 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -67,6 +67,8 @@ class BaseMessage(object):
                 '`public_keys`.')
         elif public_key is not None:
             public_keys = [public_key]
+        elif public_keys is None and hidden_public_keys:
+            public_keys = []
         if hidden_public_keys is None:
             hidden_public_keys = []
         if session_key is None:
@@ -345,7 +347,8 @@ class PublicKeySessionKey(object):
         self.key_id = key_id
         if public_key:
             self.public_key_algorithm = public_key.public_key_algorithm
-            self.key_id = public_key.key_id
+            if not hide_key_id:
+                self.key_id = public_key.key_id
         if encrypted_key:
             self.encrypted_key = encrypted_key
         if session_key:
-- 
2.43.0


From 6763a483782c37b7f4649490f8c70691ff385154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:20 +0000
Subject: [PATCH 092/129] fix: replace nothing but line endings in canonical
 text

---
 pgp/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index f615a79..7b6cf9b 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -30,7 +30,7 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-INCOMPLETE_CRLF = re.compile(b'(\r[^\n]|[^\r]\n)', re.M)
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
 
 
 class MessageSignature(BaseSignature):
@@ -186,7 +186,7 @@ class TextMessage(LiteralMessage):
     def to_signable_data(self, signature_type, signature_version=3):
         data = self.data.encode('utf8')
         if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return INCOMPLETE_CRLF.sub(b'\r\n', data)
+            return LINE_ENDING.sub(b'\r\n', data)
         return data
 
 
-- 
2.43.0


From c452bab7edddec977b82ec1a0d45d82cfdd1891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:20 +0000
Subject: [PATCH 093/129] fix: parse messages by the whole grammar, and nothing
 else

---
 pgp/message.py | 75 +++++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 7b6cf9b..d9c22f3 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -580,13 +580,13 @@ class EncryptedMessageWrapper(BaseMessage):
         while packet.type in encrypted_message_session_key_packet_types:
             session_keys.append(parse_session_key_packet(packet))
             if not packets:
-                break
+                raise TypeError('Encrypted data missing')
             packet = packets.popleft()
 
         if not session_keys:
             raise ValueError
 
-        if packet.type in encrypted_message_packet_types:
+        if packet.type in encrypted_message_data_packet_types:
             return cls(session_keys, parse_encrypted_message_packet(packet))
 
         raise TypeError
@@ -649,23 +649,29 @@ class SignedMessageWrapper(BaseMessage):
 
     @classmethod
     def from_packets(cls, packets):
-        one_pass = False
-        signatures = []
-        message = None
-        for packet in packets:
-            if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
-                one_pass = True
-            elif packet.type == C.SIGNATURE_PACKET_TYPE:
-                if message:
-                    signature = parse_signature_from_packet(packet, message,
-                                                            one_pass=one_pass)
-                    signatures.append(signature)
-                else:
-                    raise TypeError()
-            elif message is None:
-                message = open_pgp_message_from_packets([packet])
-            else:
-                raise TypeError()
+        leading_type = packets[0].type
+        one_pass = leading_type == C.ONE_PASS_SIGNATURE_PACKET_TYPE
+        leading = []
+        while packets and packets[0].type == leading_type:
+            packet = packets.popleft()
+            leading.append(packet)
+            if one_pass and packet.nested:
+                # The next packet begins the signed message.
+                break
+        message = parse_message(packets)
+        signature_packets = leading
+        if one_pass:
+            # Each one pass packet has its signature after the message.
+            signature_packets = []
+            for _ in leading:
+                if not packets or \
+                        packets[0].type != C.SIGNATURE_PACKET_TYPE:
+                    raise TypeError('Signature missing')
+                signature_packets.append(packets.popleft())
+        signatures = [
+            parse_signature_from_packet(packet, message, one_pass=one_pass)
+            for packet in signature_packets
+            ]
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
@@ -739,20 +745,27 @@ class CompressedMessageWrapper(BaseMessage):
         return [self.to_packet(header_format)]
 
 
+def parse_message(pkts):
+    """Take the packets of one message off the front of a deque."""
+    packet_type = pkts[0].type
+    if packet_type in encrypted_message_packet_types:
+        return EncryptedMessageWrapper.from_packets(pkts)
+    elif packet_type in (C.ONE_PASS_SIGNATURE_PACKET_TYPE,
+                         C.SIGNATURE_PACKET_TYPE):
+        return SignedMessageWrapper.from_packets(pkts)
+    elif packet_type == C.COMPRESSED_DATA_PACKET_TYPE:
+        return CompressedMessageWrapper.from_packet(pkts.popleft())
+    elif packet_type == C.LITERAL_DATA_PACKET_TYPE:
+        return LiteralMessage.from_packet(pkts.popleft())
+
+    raise TypeError('Not a message')
+
+
 def open_pgp_message_from_packets(pkts):
     pkts = collections.deque(pkts)
-    packet = pkts.popleft()
-    if packet.type in encrypted_message_packet_types:
-        pkts.appendleft(packet)
-        result = EncryptedMessageWrapper.from_packets(pkts)
-    elif packet.type in (C.ONE_PASS_SIGNATURE_PACKET_TYPE,
-                         C.SIGNATURE_PACKET_TYPE):
-        pkts.appendleft(packet)
-        result = SignedMessageWrapper.from_packets(pkts)
-    elif packet.type == C.COMPRESSED_DATA_PACKET_TYPE:
-        result = CompressedMessageWrapper.from_packet(packet)
-    elif packet.type == C.LITERAL_DATA_PACKET_TYPE:
-        result = LiteralMessage.from_packet(packet)
+    result = parse_message(pkts)
+    if pkts:
+        raise TypeError('Packets after the end of the message')
 
     return result
 
-- 
2.43.0


From d49c34c38bf25f897484e8416cf4ad59bf06aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:20 +0000
Subject: [PATCH 094/129] fix: write signed messages in the order of the
 grammar

---
 pgp/message.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index d9c22f3..a8f1eaf 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -686,9 +686,9 @@ class SignedMessageWrapper(BaseMessage):
         pkts = []
         op_header_format = header_format
         if self.one_pass:
-            i = 0
-            for sig in self.signatures:
-                i += 1
+            # "The Signature packets bracket the message": the last one pass
+            # packet is for the first signature after it.
+            for sig in reversed(self.signatures):
                 if not header_format:
                     op_header_format = sig.packet_header_type
                 pkts.append(
@@ -699,11 +699,17 @@ class SignedMessageWrapper(BaseMessage):
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
                         sig.issuer_key_ids[0],
-                        nested=(i != len(self.signatures))
+                        nested=(sig is self.signatures[0])
                     ))
-        pkts.extend(self.message.to_packets(header_format))
-        for sig in self.signatures:
-            pkts.append(sig.to_packet(header_format))
+        message_packets = self.message.to_packets(header_format)
+        signature_packets = [sig.to_packet(header_format)
+                             for sig in self.signatures]
+        if self.one_pass:
+            pkts.extend(message_packets)
+            pkts.extend(signature_packets)
+        else:
+            pkts.extend(signature_packets)
+            pkts.extend(message_packets)
         return pkts
 
 
-- 
2.43.0


From e3b312065a513c8f6fc705c53ba6c22d3d0e76ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 095/129] fix: canonicalize text given as a string, and verify
 it

---
 pgp/message.py            | 10 ++--------
 pgp/signature.py          | 12 ++++++++++++
 pgp/transferrable_keys.py |  8 +-------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index a8f1eaf..17386da 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -17,7 +17,6 @@
 import abc
 import collections
 import datetime
-import re
 import six
 
 from Crypto import Random
@@ -27,12 +26,10 @@ from pgp import s2k
 from pgp.packets import constants as C
 from pgp.packets import packets
 from pgp.signature import BaseSignature
+from pgp.signature import get_signable_text
 from pgp import utils
 
 
-LINE_ENDING = re.compile(b'\r\n|\r|\n')
-
-
 class MessageSignature(BaseSignature):
 
     one_pass = None
@@ -184,10 +181,7 @@ class TextMessage(LiteralMessage):
         self.timestamp = timestamp
 
     def to_signable_data(self, signature_type, signature_version=3):
-        data = self.data.encode('utf8')
-        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return LINE_ENDING.sub(b'\r\n', data)
-        return data
+        return get_signable_text(self.data, signature_type)
 
 
 class BinaryMessage(LiteralMessage):
diff --git a/pgp/signature.py b/pgp/signature.py
index 935aa9b..f36679b 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -32,6 +32,14 @@ from pgp.user_id import parse_user_id
 
 
 _marker = object()
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
+
+
+def get_signable_text(text, signature_type):
+    data = text.encode('utf8')
+    if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+        return LINE_ENDING.sub(b'\r\n', data)
+    return data
 
 
 def get_signable_data(item, signature_type, signature_version=3):
@@ -42,6 +50,10 @@ def get_signable_data(item, signature_type, signature_version=3):
     if isinstance(item, BaseSignature):
         return item.to_packet().get_content_for_signature_hash(
             signature_version)
+    if isinstance(item, str):
+        return get_signable_text(item, signature_type)
+    if isinstance(item, bytes):
+        return item
     return item.to_signable_data(signature_type, signature_version)
 
 
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 4b6b4a5..43dc41c 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -533,13 +533,7 @@ class BaseSecretKey(BasePublicKey):
         key_obj = self._get_key_obj()
 
         hash_ = utils.get_hash_instance(hash_algorithm)
-        if isinstance(item, str):
-            hash_.update(item.encode('utf8'))
-        elif isinstance(item, bytes):
-            hash_.update(item)
-
-        else:
-            hash_.update(get_signable_data(item, signature_type, version))
+        hash_.update(get_signable_data(item, signature_type, version))
         if isinstance(item, (BasePublicKey, UserID, UserAttribute)):
             SigClass = KeySignature
         else:
-- 
2.43.0


From 1642780aa57669dd5a937eb4ce1f2fc8cd352a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:32 +0000
Subject: [PATCH 096/129] fix: write messages encrypted without session key
 packets

---
 pgp/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index 17386da..0e3b073 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -386,6 +386,10 @@ class DefaultSessionKey(object):
     def set_algorithm_and_session_key(self, *args, **kwargs):
         raise TypeError()
 
+    def to_packet(self, header_format=None):
+        # There is no packet: the session key is that of the passphrase.
+        return None
+
 
 EncryptedSessionKey.register(DefaultSessionKey)
 SymEncAndIPDPacket = \
-- 
2.43.0


From 398fcee3b458c012dca6b73e0a61e02d3681273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:54 +0000
Subject: [PATCH 097/129] fix: keep the other armor headers when reading and
 write them back

ASCIIArmor.from_ascii collected unknown headers and dropped them, and
writing a mapping of headers tried to unpack its keys.
---
 pgp/armor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 3ae3616..b4fec8f 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -168,7 +168,7 @@ class ASCIIArmor(object):
                 repr(header_line), repr(tail_line)))
 
         return cls(data_type, data, part, total_parts, version, comment,
-                   message_id, hash_algorithms, charset)
+                   message_id, hash_algorithms, charset, extra_headers)
 
     def __init__(self, data_type, data, part=None, total_parts=None,
                  version=None, comment=None, message_id=None,
@@ -232,7 +232,7 @@ class ASCIIArmor(object):
             result_lines.append(
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
-            for k, v in self.extra_headers:
+            for k, v in dict(self.extra_headers).items():
                 result_lines.append('{0}: {1}'.format(k, v))
 
         result_lines.append('')
-- 
2.43.0


From ba3b8bcc6481e7bd367ac1af2ac52740b9823983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 098/129] fix: refuse critical notations with undefined flags
 too

parse_notation gives None for them, and the signature was accepted as if
the critical notation was not there.
---
 pgp/parse.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pgp/parse.py b/pgp/parse.py
index 7216087..7cfb1a9 100644
--- a/pgp/parse.py
+++ b/pgp/parse.py
@@ -226,12 +226,13 @@ def parse_signature_subpacket(sub, signature, signature_owner_type,
                 })
     elif sub.subtype == 20:
         notation = parse_notation(sub.data, signature_hashed or sub.hashed)
+        if sub.critical:
+            # "If there is a critical notation, the criticality
+            #  applies to that specific notation and not to notations
+            #  in general."
+            raise CannotParseCriticalNotation(
+                notation['name'] if notation else None)
         if notation:
-            if sub.critical:
-                # "If there is a critical notation, the criticality
-                #  applies to that specific notation and not to notations
-                #  in general."
-                raise CannotParseCriticalNotation(notation['name'])
             signature.setdefault('notations', [])
             signature['notations'].append(notation)
 
-- 
2.43.0


From f77ff7db6d0783931ef8e857730b3ab9ffb55b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 099/129] fix: accept hashed subpackets of unknown types when
 importing keys

An unknown subpacket that is not critical is to be ignored; listing its
keys raised TypeError.
---
 pgp/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/parse.py b/pgp/parse.py
index 7cfb1a9..bb0a999 100644
--- a/pgp/parse.py
+++ b/pgp/parse.py
@@ -419,7 +419,7 @@ def parse_signature_packet(p, parent_type, parent_key_ids=None,
         for k, v in hashed.items():
             if not k or not v:
                 continue
-            keys = subpacket_type_to_keys(k)
+            keys = subpacket_type_to_keys(k) or []
             signature['hashed'].extend(keys)
     else:
         raise UnsupportedSignatureVersion(p.sig_version)
-- 
2.43.0


From 2a28fe69dceaae1f7c75c63e8e1a828a0333de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 100/129] fix: parse embedded signatures when importing keys

They have no parent key IDs, which raised TypeError.
---
 pgp/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/parse.py b/pgp/parse.py
index bb0a999..42c36d6 100644
--- a/pgp/parse.py
+++ b/pgp/parse.py
@@ -361,6 +361,8 @@ def parse_signature_packet(p, parent_type, parent_key_ids=None,
     which are embedded as hashed signature subpackets.
     """
 
+    if parent_key_ids is None:
+        parent_key_ids = []
     signature = {}
     signature['validated'] = None
     signature['hash_algorithm_type'] = p.raw_hash_algorithm
-- 
2.43.0


From 2765fe68ceeae12e54c09529941666af35c81126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 101/129] fix: read whole issuer key IDs when importing keys

Only four octets were read, so no signature was ever recognised as a
self-signature.
---
 pgp/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/parse.py b/pgp/parse.py
index 42c36d6..45b2990 100644
--- a/pgp/parse.py
+++ b/pgp/parse.py
@@ -221,7 +221,7 @@ def parse_signature_subpacket(sub, signature, signature_owner_type,
         #  of explicitly tying those keys to the signature."
         signature.setdefault('key_ids', [])
         signature['key_ids'].append({
-                'key_id': utils.bytearray_to_hex(sub.data, 0, 8).upper(),
+                'key_id': utils.bytearray_to_hex(sub.data, 0, 16).upper(),
                 'hashed': signature_hashed or sub.hashed
                 })
     elif sub.subtype == 20:
-- 
2.43.0


From 9f6fa07cfbaafbed542d800aba126106e8e9f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 102/129] fix: validate imported keys by the number of the
 signature type

pgpdump's sig_type is the name of the type, so every key with a
signature was refused.
---
 pgp/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/parse.py b/pgp/parse.py
index 45b2990..2929ce9 100644
--- a/pgp/parse.py
+++ b/pgp/parse.py
@@ -639,7 +639,7 @@ def validate_transferrable_public_key(packets):
                 raise InvalidKeyPacketOrder("Public Key Packet must be first "
                                             "in the list")
         elif this == 2:
-            sig_type = packets[i].sig_type
+            sig_type = packets[i].raw_sig_type
             previous_non_sig = [x for x in type_order[i - 1::-1] if x != 2][0]
             if sig_type == 0x1f:
                 for t in type_order[:i]:
@@ -662,7 +662,7 @@ def validate_transferrable_public_key(packets):
                                     "Packet and other Signatures Directly On "
                                     "Key")
             elif sig_type == 0x28:
-                if previous != 2 or packets[i - 1].sig_type != 0x18:
+                if previous != 2 or packets[i - 1].raw_sig_type != 0x18:
                     raise InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
@@ -690,7 +690,7 @@ def validate_transferrable_public_key(packets):
         elif this == 14:
             if pubkey_version < 4:
                 raise InvalidKeyPacketType("V3 keys may not contain subkeys")
-            if type_order[i + 1] != 2 or packets[i + 1].sig_type != 0x18:
+            if type_order[i + 1] != 2 or packets[i + 1].raw_sig_type != 0x18:
                 raise InvalidKeyPacketOrder(
                             "Subkeys must be followed by a binding signature")
         else:
-- 
2.43.0


From 2e39a3064ed087805fe24665784a4bf7741abca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 103/129] fix: hash_key_data: make octets of the hexadecimal
 digest

Python 3 cannot make octets of text without an encoding.
---
 pgp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 4c32823..e965e1c 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -912,8 +912,8 @@ def concat_key(packets):
 def hash_key_data(packets):
     canonical_key_data = concat_key(sort_key(packets))
     if not canonical_key_data:
-        return bytes('')
-    return bytearray(MD5.new(canonical_key_data).hexdigest())
+        return bytearray()
+    return bytearray(MD5.new(canonical_key_data).hexdigest().encode('ascii'))
 
 
 def get_signature_values(signature_packet_data):
-- 
2.43.0


From a0155bb17b209bc1f92869c5ac4ea54d9b932a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:15 +0000
Subject: [PATCH 104/129] fix: add the missing utils.get_bitlen

pgp.parse calls it for every key.
---
 pgp/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index e965e1c..1d3c00d 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -909,6 +909,14 @@ def concat_key(packets):
     return buf
 
 
+def get_bitlen(public_key):
+    """Get the size in bits of a parsed public key."""
+    value = public_key.get('modulus') or public_key.get('prime')
+    if value is None:
+        return None
+    return value.bit_length()
+
+
 def hash_key_data(packets):
     canonical_key_data = concat_key(sort_key(packets))
     if not canonical_key_data:
-- 
2.43.0


From 83279709ade2536ce047edf5dcc2cd91dfb5f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:02 +0000
Subject: [PATCH 105/129] fix: contact https:// keyservers over TLS

Only hkps:// addresses were; https:// was turned into http://.
---
 pgp/keyserver/hkp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 23e3d87..289829b 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -113,7 +113,8 @@ class HKPKeyserverClient(object):
     def __init__(self, base_url):
         parts = urlparse(base_url)
         base_url = urlunparse(
-            (('https' if parts.scheme.lower() == 'hkps' else 'http'),)
+            (('https' if parts.scheme.lower() in ('hkps', 'https')
+              else 'http'),)
             + parts[1:6])
         self.base_url = base_url
 
-- 
2.43.0


From 2f4f6b5fadf97ed28341a4e8b83bf11cfa409850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:02 +0000
Subject: [PATCH 106/129] fix: contact hkp:// keyservers at the HKP port

An hkp:// address without a port means port 11371, and the server at
port 80 was asked.
---
 pgp/keyserver/hkp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 289829b..4c9214c 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -112,6 +112,10 @@ class HKPKeyserverClient(object):
 
     def __init__(self, base_url):
         parts = urlparse(base_url)
+        if parts.scheme.lower() == 'hkp' and parts.port is None:
+            # HKP has a port of its own
+            parts = parts._replace(
+                netloc='{0}:11371'.format(parts.netloc.rstrip(':')))
         base_url = urlunparse(
             (('https' if parts.scheme.lower() in ('hkps', 'https')
               else 'http'),)
-- 
2.43.0


From 75b04d4ea9e7282859663a64e3dd80bd03fa8c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:12 +0000
Subject: [PATCH 107/129] fix: close the agent connection when the agent fails

---
 pgp/pinentry/gpg_agent.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 7ba9639..8b1fccb 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -32,9 +32,13 @@ class GPGAgentPinentry(object):
 
     def connect(self):
         self._sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
-        self._sock.connect(self.socket_path)
-        # Get welcome line
-        self.get_response()
+        try:
+            self._sock.connect(self.socket_path)
+            # Get welcome line
+            self.get_response()
+        except:
+            self.disconnect()
+            raise
 
     def disconnect(self):
         self._sock.close()
@@ -49,6 +53,8 @@ class GPGAgentPinentry(object):
         lines = []
         while 1:
             byte = self._sock.recv(1)
+            if not byte:
+                raise ValueError('The agent closed the connection.')
             if byte == b'\n':
                 lines.append(buf)
                 if buf[:2] == b'OK':
@@ -63,7 +69,6 @@ class GPGAgentPinentry(object):
     def get_passphrase(self, prompt=None, error_message=None,
                        description=None, cache_id=None, use_cache=True,
                        no_ask=False, qualitybar=False, repeat=0):
-        self.connect()
         params = '--data'
         if no_ask:
             params += ' --no-ask'
@@ -89,12 +94,18 @@ class GPGAgentPinentry(object):
             params += ' {0}'.format(quote(description))
         else:
             params += ' X'
-        self.send('GET_PASSPHRASE {0}'.format(params))
-        response = self.get_response()
-        self.disconnect()
+        self.connect()
+        try:
+            self.send('GET_PASSPHRASE {0}'.format(params))
+            response = self.get_response()
+        finally:
+            self.disconnect()
         return unquote(response[0][2:].decode('latin-1'))
 
     def clear_passphrase(self, cache_id):
+        command = 'CLEAR_PASSPHRASE {0}'.format(quote(cache_id))
         self.connect()
-        self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
-        self.disconnect()
+        try:
+            self.send(command)
+        finally:
+            self.disconnect()
-- 
2.43.0


From 1d4afede24757bfc8558f0f2e91314ce17141a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:12 +0000
Subject: [PATCH 108/129] fix: do not name a cache entry to the agent without
 use_cache

---
 pgp/pinentry/gpg_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 8b1fccb..cb089b0 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -78,7 +78,7 @@ class GPGAgentPinentry(object):
             params += ' --repeat'
         elif repeat > 1:
             params += ' --repeat={0}'.format(repeat)
-        if cache_id:
+        if cache_id and use_cache:
             params += ' {0}'.format(quote(cache_id))
         else:
             params += ' X'
-- 
2.43.0


From fcc52b25cd80d82ba6027886482e65ee4544ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:40 +0000
Subject: [PATCH 109/129] fix: escape a leading hyphen in texts for the agent

---
 pgp/pinentry/gpg_agent.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index cb089b0..a6cfa28 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -20,6 +20,14 @@ from urllib.parse import quote
 from urllib.parse import unquote
 
 
+def _quote(text):
+    text = quote(text)
+    if text.startswith('-'):
+        # The agent would take it for an option
+        text = '%2D' + text[1:]
+    return text
+
+
 class GPGAgentPinentry(object):
 
     def __init__(self, name=None, socket_path=None):
@@ -79,19 +87,19 @@ class GPGAgentPinentry(object):
         elif repeat > 1:
             params += ' --repeat={0}'.format(repeat)
         if cache_id and use_cache:
-            params += ' {0}'.format(quote(cache_id))
+            params += ' {0}'.format(_quote(cache_id))
         else:
             params += ' X'
         if error_message:
-            params += ' {0}'.format(quote(error_message))
+            params += ' {0}'.format(_quote(error_message))
         else:
             params += ' X'
         if prompt:
-            params += ' {0}'.format(quote(prompt))
+            params += ' {0}'.format(_quote(prompt))
         else:
             params += ' X'
         if description:
-            params += ' {0}'.format(quote(description))
+            params += ' {0}'.format(_quote(description))
         else:
             params += ' X'
         self.connect()
@@ -103,7 +111,7 @@ class GPGAgentPinentry(object):
         return unquote(response[0][2:].decode('latin-1'))
 
     def clear_passphrase(self, cache_id):
-        command = 'CLEAR_PASSPHRASE {0}'.format(quote(cache_id))
+        command = 'CLEAR_PASSPHRASE {0}'.format(_quote(cache_id))
         self.connect()
         try:
             self.send(command)
-- 
2.43.0


From 660460ba92a1f01043c57e4e22b6fb6ad9a4220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 110/129] fix: keep secret keys in the secret keyring

---
 pgp/db/gpg.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3c7bc67..771c6d5 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -526,42 +526,45 @@ class GPGDatabase(object):
         return resource
 
     def add_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # A secret key is an instance of both classes
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.add_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.add_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def delete_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # A secret key is an instance of both classes
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.delete_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.delete_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def update_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # A secret key is an instance of both classes
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.update_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.update_transferrable_key(key)
                     break
         else:
-- 
2.43.0


From d07ef2d5c448b7118ded2b716f3a6dbd55c2d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 111/129] fix: label armored secret keys as private

---
 pgp/shortcuts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 5f968f2..3448b43 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -74,10 +74,11 @@ def serialize_key(key, armored=False, header_format=None):
         header_format = constants.OLD_PACKET_HEADER_TYPE
     data = b''.join(map(bytes, key.to_packets(header_format)))
     if armored:
-        if isinstance(key, TransferablePublicKey):
-            data_type = armor.PGP_PUBLIC_KEY_BLOCK
-        elif isinstance(key, TransferableSecretKey):
+        # A secret key is an instance of both classes
+        if isinstance(key, TransferableSecretKey):
             data_type = armor.PGP_PRIVATE_KEY_BLOCK
+        elif isinstance(key, TransferablePublicKey):
+            data_type = armor.PGP_PUBLIC_KEY_BLOCK
 
         data = str(armor.ASCIIArmor(
                 data_type, data,
-- 
2.43.0


From a09f61dcf961b98a7f196f8dd10e521a64cc8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:43 +0000
Subject: [PATCH 112/129] fix: do not upload secret keys to keyservers

---
 pgp/keyserver/hkp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 4c9214c..b03488d 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -24,6 +24,7 @@ import requests
 
 from pgp import armor
 from pgp.shortcuts import read_key
+from pgp.transferrable_keys import TransferableSecretKey
 
 
 def _add_colons(line, number):
@@ -180,6 +181,9 @@ class HKPKeyserverClient(object):
         return self._read_mr(response.text)
 
     def submit(self, key, no_modify=False):
+        if isinstance(key, TransferableSecretKey):
+            # Never publish the secret parts
+            key = key.to_public_key()
         key_data = b''.join(map(bytes, key.to_packets()))
         a = armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, key_data)
         response = requests.post(self.submit_url, data={
-- 
2.43.0


From 98fcd1bbfc83b49cabcb8c78477b477082eb00c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 113/129] fix: take an empty file for a keyring and remove the
 whole prefix of a name

---
 pgp/db/gpg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 771c6d5..7c6e695 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -39,7 +39,7 @@ from pgp.transferrable_keys import TransferableSecretKey
 
 
 GDBM_MAGIC = (
-    b'\x13\x57\x9a\xce'
+    b'\x13\x57\x9a\xce',
     b'\xce\x9a\x57\x13'
 )
 
@@ -471,10 +471,10 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     type_ = ResourceTypes.NONE
     if filename.startswith('gnupg-keyring:'):
         type_ = ResourceTypes.KEYRING
-        filename = filename[12:]
+        filename = filename[len('gnupg-keyring:'):]
     elif filename.startswith('gnupg-kbx:'):
         type_ = ResourceTypes.KEYBOX
-        filename = filename[11:]
+        filename = filename[len('gnupg-kbx:'):]
     filename = os.path.abspath(filename)
 
     if type_ == ResourceTypes.NONE:
-- 
2.43.0


From d7a7c1518c568db6b0282f0c71dd27771b94496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 114/129] fix: create a missing keyring, unless it is opened
 read-only

---
 pgp/db/gpg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 7c6e695..1587864 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -188,8 +188,8 @@ class BaseResource(object):
 
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
-            if force:
-                self.create_db(self.filename)
+            if force and not self.read_only:
+                self.create_db()
             else:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
-- 
2.43.0


From 38bb6eccac5fa2a4213a829347a304651f1f2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 115/129] fix: keep the keys after the one updated or deleted

---
 pgp/db/gpg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 1587864..ac304d5 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -421,6 +421,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
@@ -455,6 +456,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
-- 
2.43.0


From e35941718791a501621a42c1ecbbc0afa06770c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 116/129] fix: find keys in a keyring by their fingerprints

---
 pgp/db/gpg.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index ac304d5..a382a64 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -31,6 +31,7 @@ import signal
 import threading
 import time
 
+from pgp import utils
 from pgp.packets import parse_binary_packet_data
 from pgp.packets import parse_binary_packet_stream
 from pgp.packets import constants
@@ -310,7 +311,7 @@ class Keyring(BaseResource):
         return self._offset_table.keys()
 
     def _update_offset_table(self):
-        offset_table = {}
+        offset_table = OrderedDict()
         self.lock_db()
         try:
             with open(self.filename, 'rb') as fh:
@@ -323,7 +324,9 @@ class Keyring(BaseResource):
                             constants.PUBLIC_KEY_PACKET_TYPE,
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
-                        offset_table[packet.key_id[-8:]] = last_offset
+                        fingerprint = utils.key_packet_fingerprint(packet)
+                        # As when searching, the first one counts
+                        offset_table.setdefault(fingerprint, last_offset)
                     last_offset = fh.tell()
         finally:
             self.unlock_db()
@@ -371,7 +374,13 @@ class Keyring(BaseResource):
             self.unlock_db()
 
     def get_transferrable_key(self, fingerprint):
-        offset = self._offset_table[fingerprint[-8:]]
+        if fingerprint not in self._offset_table:
+            # Actually a key ID - find the fingerprint first.
+            for k in self._offset_table:
+                if k.endswith(fingerprint):
+                    fingerprint = k
+                    break
+        offset = self._offset_table[fingerprint]
         return self._get_key(offset)
 
     def add_transferrable_key(self, key):
@@ -401,10 +410,10 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
+        if key.fingerprint not in self._offset_table:
             raise KeyError
 
-        offset = self._offset_table[key.fingerprint[-8:]]
+        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
             data = b''
@@ -436,10 +445,10 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
+        if key.fingerprint not in self._offset_table:
             raise KeyError
 
-        offset = self._offset_table[key.fingerprint[-8:]]
+        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
             data = b''
-- 
2.43.0


From 5be022ea5f195cea504c36f74e654195116ae942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 117/129] fix: hold the keyring lock until its last release,
 and never take one over from a live process

---
 pgp/db/gpg.py | 77 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 27 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index a382a64..2c64cbe 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -16,6 +16,7 @@
 
 import atexit
 from collections import OrderedDict
+import errno
 try:
     from dbm import gnu as gdbm
     HAVE_GDBM = True
@@ -27,7 +28,6 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
-import signal
 import threading
 import time
 
@@ -65,13 +65,13 @@ _locks = []
 @atexit.register
 def _clean_up_locks():
     for l in _locks:
-        l.release()
         try:
-            os.unlink(l.name)
+            while l.locked:
+                l.release()
         except:
             pass
         try:
-            os.unlink(l.lock_template_name)
+            os.unlink(l.template_name)
         except:
             pass
 
@@ -98,12 +98,13 @@ class Lock(object):
             filename,
             os.path.extsep)
         self._lock = threading.RLock()
+        self._depth = 0
         _locks.append(self)
 
     def __del__(self):
         try:
             self.release()
-            os.unlink(self.lock_template_name)
+            os.unlink(self.template_name)
         except:
             # TODO: log an error
             pass
@@ -117,36 +118,58 @@ class Lock(object):
 
     def acquire(self, timeout=None):
         start = time.time()
-        while not self.locked:
-            if timeout is not None and (time.time() - start) > timeout:
-                return False
-            self._lock.acquire()
-            os.link(self.template_name, self.name)
-            pid, same_node = self.read()
-            if pid == os.getpid() and same_node:
-                # OK
-                pass
-            elif same_node:
-                # attempt to kill the interloper
-                os.kill(pid, signal.SIG_DFL)
-                os.unlink(self.name)
-                continue
-            self.locked = True
+        self._lock.acquire()
+        try:
+            while not self.locked:
+                try:
+                    os.link(self.template_name, self.name)
+                except OSError as e:
+                    if e.errno != errno.EEXIST:
+                        raise
+                else:
+                    self.locked = True
+                    break
+                if timeout is not None and (time.time() - start) > timeout:
+                    self._lock.release()
+                    return False
+                if self._is_stale():
+                    os.unlink(self.name)
+                else:
+                    time.sleep(0.1)
+        except:
+            self._lock.release()
+            raise
 
+        self._depth += 1
         return True
 
+    def _is_stale(self):
+        try:
+            pid, same_node = self.read()
+        except (IOError, OSError, ValueError):
+            # Being released, or not written by us
+            return False
+        if not same_node or pid == os.getpid():
+            return False
+        try:
+            os.kill(pid, 0)
+        except OSError as e:
+            return e.errno == errno.ESRCH
+        return False
+
     def release(self):
         if not self.locked:
             return
 
-        pid, same_node = self.read()
-        if pid == os.getpid() and same_node:
-            os.unlink(self.name)
-            self.locked = False
+        self._depth -= 1
+        try:
+            if self._depth == 0:
+                self.locked = False
+                pid, same_node = self.read()
+                if pid == os.getpid() and same_node:
+                    os.unlink(self.name)
+        finally:
             self._lock.release()
-        else:
-            # TODO: error?
-            return
 
 
 class ResourceTypes:
-- 
2.43.0


From db7db33c29fc5fed36b755a5259633e11d3692b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 118/129] fix: GDBM: do not keep the lock while iterating, and
 repair wrong names

---
 pgp/db/gpg.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 2c64cbe..0841f72 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -223,9 +223,11 @@ class GDBM(BaseResource):
 
     def __init__(self, *args, **kwargs):
         super(GDBM, self).__init__(*args, **kwargs)
-        first_key = self.firstkey()
-        if first_key is not None:
-            packet = next(parse_binary_packet_data(self[first_key]))
+        keys = self.keys()
+        if keys:
+            with gdbm.open(self.filename, 'r') as db:
+                packet_data = db[keys[0]]
+            packet = next(parse_binary_packet_data(packet_data))
             self._preferred_header_format = packet.header_format
         else:
             self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
@@ -234,10 +236,12 @@ class GDBM(BaseResource):
         self.lock_db()
         try:
             with gdbm.open(self.filename, 'r') as db:
+                keys = []
                 key = db.firstkey()
                 while key is not None:
-                    yield key
+                    keys.append(key)
                     key = db.nextkey(key)
+                return keys
         finally:
             self.unlock_db()
 
@@ -314,8 +318,8 @@ class GDBM(BaseResource):
             with gdbm.open(self.filename, 'w') as db:
                 if key.fingerprint not in db:
                     raise KeyError(key.fingerprint)
-                gdbm.reorganize()
                 del db[key.fingerprint]
+                db.reorganize()
         finally:
             self.unlock_db()
 
-- 
2.43.0


From 8256fc2653eac9d20e08e8c5c242a95d7204b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:37 +0000
Subject: [PATCH 119/129] fix: GDBM: give the fingerprints as text

---
 pgp/db/gpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 0841f72..51cb517 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -239,7 +239,7 @@ class GDBM(BaseResource):
                 keys = []
                 key = db.firstkey()
                 while key is not None:
-                    keys.append(key)
+                    keys.append(key.decode('us-ascii'))
                     key = db.nextkey(key)
                 return keys
         finally:
-- 
2.43.0


From 9af0af9d33f825d0925bb1c9bb3c4cd6e0461e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:47 +0000
Subject: [PATCH 120/129] fix: GDBM: read the file under the lock when opening
 it

---
 pgp/db/gpg.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 51cb517..db8da06 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -223,14 +223,16 @@ class GDBM(BaseResource):
 
     def __init__(self, *args, **kwargs):
         super(GDBM, self).__init__(*args, **kwargs)
-        keys = self.keys()
-        if keys:
+        self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
+        self.lock_db()
+        try:
             with gdbm.open(self.filename, 'r') as db:
-                packet_data = db[keys[0]]
-            packet = next(parse_binary_packet_data(packet_data))
-            self._preferred_header_format = packet.header_format
-        else:
-            self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
+                first_key = db.firstkey()
+                if first_key is not None:
+                    packet = next(parse_binary_packet_data(db[first_key]))
+                    self._preferred_header_format = packet.header_format
+        finally:
+            self.unlock_db()
 
     def keys(self):
         self.lock_db()
-- 
2.43.0


From 18ec5cfc076609cf3e0ffeb72ecf816e67649a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:37 +0000
Subject: [PATCH 121/129] fix: look keys up in a keyring under the lock before
 changing it

---
 pgp/db/gpg.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index db8da06..b820d75 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -416,11 +416,12 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint in self._offset_table:
-            raise KeyError
-
         self.lock_db()
         try:
+            # The file may have changed since it was last read
+            self._update_offset_table()
+            if key.fingerprint in self._offset_table:
+                raise KeyError(key.fingerprint)
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read()
@@ -439,12 +440,13 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
+            # The file may have changed since it was last read
+            self._update_offset_table()
+            if key.fingerprint not in self._offset_table:
+                raise KeyError(key.fingerprint)
+            offset = self._offset_table[key.fingerprint]
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
@@ -474,12 +476,13 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
+            # The file may have changed since it was last read
+            self._update_offset_table()
+            if key.fingerprint not in self._offset_table:
+                raise KeyError(key.fingerprint)
+            offset = self._offset_table[key.fingerprint]
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
-- 
2.43.0


From fb8118bf4f24135e2f6a2f4700c82df35c23a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:58 +0000
Subject: [PATCH 122/129] fix: merge keys by the octets of their components,
 keeping those of both

---
 pgp/merge.py | 145 +++++++++++++++++++++------------------------------
 1 file changed, 58 insertions(+), 87 deletions(-)

diff --git a/pgp/merge.py b/pgp/merge.py
index 935ab4b..73b02bd 100644
--- a/pgp/merge.py
+++ b/pgp/merge.py
@@ -20,17 +20,22 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 from collections import OrderedDict
+import copy
+import weakref
 
-from pgp import utils
+from pgp.transferrable_keys import BasePublicKey
+from pgp.transferrable_keys import BaseSecretKey
 
 
 def keys_equivalent(key1, key2):
     return (
-        key1.version == key2.version
+        key1.fingerprint == key2.fingerprint
+        and isinstance(key1, BaseSecretKey) == isinstance(key2, BaseSecretKey)
+        and key1.version == key2.version
         and key1.public_key_algorithm == key2.public_key_algorithm
         and key1.modulus_n == key2.modulus_n
         and key1.exponent_e == key2.exponent_e
-        and key1.prime_p == key2.prime_p
+        and key1._public_prime_p == key2._public_prime_p
         and key1.group_generator_g == key2.group_generator_g
         and key1.group_order_q == key2.group_order_q
         and key1.key_value_y == key2.key_value_y
@@ -38,7 +43,23 @@ def keys_equivalent(key1, key2):
         )
 
 
-def merge_sigpairs(parts):
+def packet_key(part):
+    # The same packet may be framed in different ways
+    packet = part.to_packet()
+    return (packet.type, bytes(packet.content))
+
+
+def part_key(part):
+    if isinstance(part, BasePublicKey):
+        return part.fingerprint
+    return packet_key(part)
+
+
+def signature_key(sig):
+    return packet_key(sig)
+
+
+def adopt_signatures(part, signatures):
     # "Since a self-signature contains important information about the key's
     #  use, an implementation SHOULD allow the user to rewrite the self-
     #  signature, and important information in it, such as preferences and
@@ -50,100 +71,50 @@ def merge_sigpairs(parts):
     #  same object may resolve the ambiguity in any way it sees fit, but it
     #  is RECOMMENDED that priority be given to the most recent self-
     #  signature."
+    #
+    # All of them are kept: readers pick the most recent one.
 
-    m = OrderedDict()
-    for part in parts:
-        old_sigs = m.setdefault(part, [])
-        for sig in part.signatures:
-            sig_key = signature_key(sig)
-            for sig2 in old_sigs:
-                sig_key2 = signature_key(sig2)
-                if sig_key != sig_key2:
-                    old_sigs.append(sig)
-
-    for part, sigs in m.items():
-        part.signatures = []
-
-        # If there are multiple self-signatures, just add the newest one at
-        # the head of the list. All other signatures are appended in order.
-        # All self-signatures should already be validated by this point.
-        selfsig = None
-        for sig in sigs:
-            if sig.is_self_signature() and selfsig:
-                if sig.creation_time > selfsig.creation_time:
-                    selfsig = sig
-            else:
-                part.signatures.append(sig)
-        part.signatures.insert(0, selfsig)
-
-
-def merge_sigpair_lists(part1, part2):
-    return merge_sigpairs(part1 + part2)
-
-
-_marker = object()
-
-
-def signature_key(sig):
-    return (
-        sig.version,
-        sig.signature_type,
-        sig.public_key_algorithm,
-        sig.hash_algorithm,
-        sig.creation_time,
-        set(sig.issuer_key_ids),
-        )
+    known = set(signature_key(sig) for sig in part.signatures)
+    for sig in signatures:
+        sig_key = signature_key(sig)
+        if sig_key in known:
+            continue
+        known.add(sig_key)
+        sig = copy.copy(sig)
+        sig._target_ref = weakref.ref(part)
+        part.signatures.append(sig)
+
+
+def merge_parts(key, parts, candidates):
+    known = OrderedDict((part_key(part), part) for part in parts)
+    for candidate in candidates:
+        this_key = part_key(candidate)
+        part = known.get(this_key)
+        if part is None:
+            part = copy.copy(candidate)
+            part._primary_public_key_ref = weakref.ref(key)
+            part.signatures = []
+            known[this_key] = part
+            parts.append(part)
+        adopt_signatures(part, candidate.signatures)
 
 
 def merge(key, candidate_key):
     if not keys_equivalent(key, candidate_key):
         return key
 
-    signatures = candidate_key.signatures
-    old_sigs = OrderedDict()
-    for sig in signatures:
-        sig_key = signature_key(sig)
-        for sig2 in old_sigs:
-            sig_key2 = signature_key(sig2)
-            if sig_key == sig_key2:
-                break
-        else:
-            # Only called if we never break
-            old_sigs[sig_key] = sig
-
-    old_user_ids = candidate_key.user_ids
-    old_user_attributes = candidate_key.user_attributes
-    old_subkeys = candidate_key.subkeys
-
-    for sig in old_sigs.values():
-        # FIX
-        if sig not in key.signatures:
-            key.signatures.append(sig)
-
-    key.user_ids = merge_sigpair_lists(
-        key.user_ids,
-        old_user_ids
-        )
-    key.user_attributes = merge_sigpair_lists(
-        key.user_attributes,
-        old_user_attributes
-        )
-    key.subkeys = merge_sigpair_lists(
-        key.subkeys,
-        old_subkeys
-        )
+    adopt_signatures(key, candidate_key.signatures)
+    merge_parts(key, key.user_ids, candidate_key.user_ids)
+    merge_parts(key, key.user_attributes, candidate_key.user_attributes)
+    merge_parts(key, key.subkeys, candidate_key.subkeys)
 
     return key
 
 
 def merge_key(key, db):
-    key_id = key.key_id
-    if hasattr(db, 'get_key_by_hash'):
-        if db.get_key_by_hash(utils.hash_entire_key(key)):
-            return key
-
-    potential_merges = list(db.search(key_id=key_id))
-    if potential_merges:
-        key = merge(key, potential_merges[0])
+    # Different keys may share a key ID: merge ignores those
+    for candidate_key in db.search(key_id=key.key_id):
+        if candidate_key is not None:
+            key = merge(key, candidate_key)
 
     return key
-- 
2.43.0


From 972151a2f77e02b147811ff987e061952c929932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 123/129] fix: declare IPublicKey.verify and ISecretKey.lock
 with the arguments they take

---
 pgp/interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/interfaces.py b/pgp/interfaces.py
index 1affe18..6d0fcd3 100644
--- a/pgp/interfaces.py
+++ b/pgp/interfaces.py
@@ -107,7 +107,7 @@ class IUnlockable(Interface):
     def unlock(self, passphrase):
         pass
 
-    def lock(self, passphrase):
+    def lock(self):
         pass
 
     def is_locked(self):
@@ -121,7 +121,7 @@ class ISignable(Interface):
 
 class IPublicKey(ISignable):
 
-    def verify(self, signature):
+    def verify(self, signature, item):
         pass
 
     def encrypt(self, data):
-- 
2.43.0


From 22540a1b4e0ba67223ccf0d43bea08f43d585717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 124/129] fix: gpg: report argument errors without an undefined
 name

---
 pgp/commands/gpg/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/commands/gpg/arguments.py b/pgp/commands/gpg/arguments.py
index 2cdaf82..96ab74c 100644
--- a/pgp/commands/gpg/arguments.py
+++ b/pgp/commands/gpg/arguments.py
@@ -346,7 +346,7 @@ class ArgumentParser(argparse.ArgumentParser):
     def error(self, message):
         self.print_usage(self._stderr)
         args = {'prog': self.prog, 'message': message}
-        self.exit(2, _('%(prog)s: error: %(message)s\n') % args)
+        self.exit(2, u'%(prog)s: error: %(message)s\n' % args)
 
 
 def make_argparser(prog,
-- 
2.43.0


From 14e38c7e0addb8ff06296224c738ba9a3768e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 125/129] fix: gpg: pass all arguments to the base of the
 encrypt command

---
 pgp/commands/gpg/encrypt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/commands/gpg/encrypt.py b/pgp/commands/gpg/encrypt.py
index bf2d880..799f42c 100644
--- a/pgp/commands/gpg/encrypt.py
+++ b/pgp/commands/gpg/encrypt.py
@@ -11,7 +11,8 @@ class Command(MessageCommand):
                  message_filename, for_your_eyes_only,
                  throw_keys, escape_from_lines, set_filesize):
         MessageCommand.__init__(self, io_helper, message_filename,
-                                set_filesize, for_your_eyes_only)
+                                set_filesize, escape_from_lines,
+                                for_your_eyes_only)
         self.recipient_helper = recipient_helper
         self.algorithm_helper = algorithm_helper
         self.throw_keys = throw_keys
-- 
2.43.0


From 73193f73097e9cb7c145ba92b13d78853f467aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 126/129] fix: gpg: run the subcommand for each of the
 arguments given

---
 pgp/commands/gpg/multifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/commands/gpg/multifile.py b/pgp/commands/gpg/multifile.py
index dfa2461..9edc70a 100644
--- a/pgp/commands/gpg/multifile.py
+++ b/pgp/commands/gpg/multifile.py
@@ -4,5 +4,5 @@ class MultifileCommand(object):
         self.subcommand = subcommand
 
     def run(self, *args):
-        for arg in self.args:
+        for arg in args:
             self.subcommand.run(arg)
-- 
2.43.0


From 5a9d15b7e4d6ecb07f8f436bcd15ab20d987ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:20 +0000
Subject: [PATCH 127/129] fix: gpg: keep the exit code of fatal exceptions

---
 pgp/commands/gpg/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/commands/gpg/exceptions.py b/pgp/commands/gpg/exceptions.py
index c0d1e82..63fc7c7 100644
--- a/pgp/commands/gpg/exceptions.py
+++ b/pgp/commands/gpg/exceptions.py
@@ -1,4 +1,5 @@
 class FatalException(Exception):
 
     def __init__(self, exit_code):
-        self.exit_code
+        Exception.__init__(self, exit_code)
+        self.exit_code = exit_code
-- 
2.43.0


From b87d5b7f34b6b005fae46fd5196ec999cf9c5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:44 +0000
Subject: [PATCH 128/129] fix: gpg: write output when no maximal size is set

---
 pgp/commands/gpg/io_helper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pgp/commands/gpg/io_helper.py b/pgp/commands/gpg/io_helper.py
index ac1653b..44151b7 100644
--- a/pgp/commands/gpg/io_helper.py
+++ b/pgp/commands/gpg/io_helper.py
@@ -262,8 +262,7 @@ class IOHelper(object):
                 stdout.close()
 
     def write_output(self, output, stdout=None, output_filename=None):
-        if self.max_output:
-            limit = self.max_output
+        limit = self.max_output
         if output_filename is None:
             output_filename = self.output_file
         if output_filename:
-- 
2.43.0


From d25f56b35ab3d85756eeb3b2244d431b736fb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:39 +0000
Subject: [PATCH 129/129] fix: write version 3 signatures, which have no
 unhashed subpackets

---
 pgp/packets/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6a401a0..d2c34bb 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -474,7 +474,8 @@ class SignaturePacket(Packet):
 
     @property
     def content(self):
-        return self._get_content(self.unhashed_subpackets)
+        return self._get_content(
+            self.unhashed_subpackets if self.version >= 4 else [])
 
     def _get_content(self, unhashed_subpackets):
         data = bytearray()
-- 
2.43.0

