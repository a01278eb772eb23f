From c7a9ef8ac9d4858fb19c7c63dde4874b645170b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 01/27] fix: sizes and lengths were computed with float
 division on Python 3

Lengths, key sizes and buffer sizes became floats, so key generation,
signing, padding and streaming all raised TypeError.
---
 python/src/keyczar/keyinfo.py |  6 +++---
 python/src/keyczar/keys.py    |  8 ++++----
 python/src/keyczar/util.py    | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/src/keyczar/keyinfo.py b/python/src/keyczar/keyinfo.py
index 3a02d87..d033bc9 100644
--- a/python/src/keyczar/keyinfo.py
+++ b/python/src/keyczar/keyinfo.py
@@ -125,10 +125,10 @@ class CipherMode(_NameId):
     self.use_iv = use_iv
     self.GetOutputSize = OutputSizeFn
 
-CBC = CipherMode("CBC", 0, True, lambda b, i: (i / b + 2) * b)
-CTR = CipherMode("CTR", 1, True, lambda b, i: i + b / 2)
+CBC = CipherMode("CBC", 0, True, lambda b, i: (i // b + 2) * b)
+CTR = CipherMode("CTR", 1, True, lambda b, i: i + b // 2)
 ECB = CipherMode("ECB", 2, False, lambda b, i: b)
-DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i / b + 1) * b)
+DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i // b + 1) * b)
 modes = {"CBC": CBC, "CTR": CTR, "ECB": ECB, "DET_CBC": DET_CBC}
 
 def GetMode(name):
diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7a91f0d..e86ba29 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -354,7 +354,7 @@ class AesKey(SymmetricKey):
     @return: an AES key
     @rtype: L{AesKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size
     return AesKey(key_string, hmac_key, size)
@@ -419,7 +419,7 @@ class AesKey(SymmetricKey):
     @return: best buffer size
     @rtype: int
     """
-    no_pad_size = self.block_size * (buffer_size / self.block_size)
+    no_pad_size = self.block_size * (buffer_size // self.block_size)
     return max(no_pad_size, self.block_size)
 
   def Encrypt(self, data):
@@ -521,7 +521,7 @@ class HmacKey(SymmetricKey):
     @return: an HMAC-SHA1 key
     @rtype: L{HmacKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     return HmacKey(key_string, size)
 
@@ -850,7 +850,7 @@ class RsaPrivateKey(PrivateKey):
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
     byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
-    return util.PadBytes(byte_string, self.size/8 - len(byte_string))
+    return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
     """@see: L{RsaPublicKey.Verify}"""
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d06dced..088fe41 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -246,13 +246,13 @@ def MakeEmsaMessage(msg, modulus_size):
   magic_sha1_header = [0x30, 0x21, 0x30, 0x9, 0x6, 0x5, 0x2b, 0xe, 0x3, 0x2,
                        0x1a, 0x5, 0x0, 0x4, 0x14]
   encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
-  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
+  pad_string = chr(0xFF) * (modulus_size // 8 - len(encoded) - 3)
   return chr(1) + pad_string + chr(0) + encoded
 
 def BinToBytes(bits):
   """Convert bit string to byte string."""
   bits = _PadByte(bits)
-  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) / 8)]
+  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) // 8)]
   return "".join([chr(int(x, 2)) for x in octets])
 
 def BytesToBin(byte_string):
@@ -268,9 +268,9 @@ def IntToBin(n):
   if n == 0 or n == 1:
     return str(n)
   elif n % 2 == 0:
-    return IntToBin(n / 2) + "0"
+    return IntToBin(n // 2) + "0"
   else:
-    return IntToBin(n / 2) + "1"
+    return IntToBin(n // 2) + "1"
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
@@ -531,7 +531,7 @@ class BufferedIncrementalBase64WSEncoder(codecs.BufferedIncrementalEncoder):
     # and return an (output, length consumed) tuple
     if not final:
       # only output exact multiples of 3-bytes => no padding
-      len_to_write = 3 * (len(input) / 3)
+      len_to_write = 3 * (len(input) // 3)
     else:
       len_to_write = len(input)
     return (Base64WSEncode(input[:len_to_write]), len_to_write)
@@ -658,7 +658,7 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     """
     if not final:
       # only output exact multiples of 4-bytes => no padding
-      len_to_read = 4 * (len(input) / 4)
+      len_to_read = 4 * (len(input) // 4)
     else:
       len_to_read = len(input)
     return (Base64WSDecode(input[:len_to_read]), len_to_read)
-- 
2.43.0


From e4822f7dcfef10799cc3aa410e0c6dcb8c758c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 02/27] fix: hashing and random byte strings failed on Python 3

---
 python/src/keyczar/util.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 088fe41..be52b07 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -315,25 +315,39 @@ def TrimBytes(byte_string):
   else:
     return trimmed
 
+def ToBytes(byte_string):
+  """
+  Return the bytes of a byte string, for the libraries that require them.
+
+  Keyczar byte strings are strings with one character per byte.
+
+  @raise UnicodeEncodeError: if it contains characters that are not bytes
+  """
+  return byte_string.encode("latin-1")
+
+def ToByteString(raw_bytes):
+  """Return a byte string (one character per byte) from bytes."""
+  return raw_bytes.decode("latin-1")
+
 def RandBytes(n):
   """Return n random bytes."""
   # This function requires at least Python 2.4.
-  return os.urandom(n)
+  return ToByteString(os.urandom(n))
 
 def Hash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(i)
-  return md.digest()
+    md.update(ToBytes(i))
+  return ToByteString(md.digest())
 
 def PrefixHash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(IntToBytes(len(i)))
-    md.update(i)
-  return md.digest()
+    md.update(ToBytes(IntToBytes(len(i))))
+    md.update(ToBytes(i))
+  return ToByteString(md.digest())
 
 
 def Encode(s):
-- 
2.43.0


From ea8358496dfa56e087e3e65c09c5007be9aab8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 03/27] fix: Base64 encoding and decoding failed on Python 3

Undecodable input raises binascii.Error, a ValueError, on Python 3.
---
 python/src/keyczar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index be52b07..9e808e0 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -368,7 +368,7 @@ def Base64WSEncode(s):
   @return: Base64 representation of s.
   @rtype: string
   """
-  return base64.urlsafe_b64encode(str(s)).replace("=", "")
+  return ToByteString(base64.urlsafe_b64encode(ToBytes(s))).replace("=", "")
 
 
 def Decode(s):
@@ -402,9 +402,9 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return base64.urlsafe_b64decode(s)
-  except TypeError:
-    # Decoding raises TypeError if s contains invalid characters.
+    return ToByteString(base64.urlsafe_b64decode(s))
+  except (TypeError, ValueError):
+    # Decoding raises one of these if s contains invalid characters.
     raise errors.Base64DecodingError()
 
 # Struct packed byte array format specifiers used below
-- 
2.43.0


From 811903e31df238082d715f5fb8ba36c6ff5779f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 04/27] fix: byte array packing failed on Python 3

---
 python/src/keyczar/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 9e808e0..6bb6a39 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -418,7 +418,8 @@ def PackByteArray(array):
   """
   if array is None:
     return ''
-  array_length_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array))
+  array_length_header = ToByteString(
+      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array)))
   return array_length_header + array
 
 def PackMultipleByteArrays(*arrays):
@@ -428,7 +429,8 @@ def PackMultipleByteArrays(*arrays):
   four-byte big-endian integer, followed by the arrays in sequence, each
   length-prefixed by PackByteArray().
   """
-  array_count_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
+  array_count_header = ToByteString(
+      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays)))
   array_contents = ''.join([PackByteArray(a) for a in arrays])
   return array_count_header + array_contents
 
@@ -438,7 +440,8 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
-  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER, data[offset:offset + 4])[0]
+  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
+                            ToBytes(data[offset:offset + 4]))[0]
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
-- 
2.43.0


From 8963bb81679637ec9e5b6d535f6294fddce31a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 05/27] fix: ASN.1 encoded keys and signatures could not be
 read or written on Python 3

ParseX509 also relied on how older pyasn1 versions printed a BIT STRING.
---
 python/src/keyczar/util.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 6bb6a39..9cdce8f 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -119,7 +119,7 @@ def ParseASN1Sequence(seq):
 #
 #Attributes ::= SET OF Attribute
 def ParsePkcs8(pkcs8):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(pkcs8))[0])
+  seq = ParseASN1Sequence(decoder.decode(ToBytes(Base64WSDecode(pkcs8)))[0])
   if len(seq) != 3:  # need three fields in PrivateKeyInfo
     raise errors.KeyczarError("Illegal PKCS8 String.")
   version = int(seq[0])
@@ -152,7 +152,7 @@ def ExportRsaPkcs8(params):
     key.setComponentByPosition(i+1, univ.Integer(params[RSA_PARAMS[i]]))
   octkey = encoder.encode(key)
   seq = ASN1Sequence(univ.Integer(0), oid, univ.OctetString(octkey))
-  return Base64WSEncode(encoder.encode(seq))
+  return Base64WSEncode(ToByteString(encoder.encode(seq)))
 
 def ExportDsaPkcs8(params):
   alg_params = univ.Sequence()
@@ -161,21 +161,20 @@ def ExportDsaPkcs8(params):
   oid = ASN1Sequence(DSA_OID, alg_params)
   octkey = encoder.encode(univ.Integer(params['x']))
   seq = ASN1Sequence(univ.Integer(0), oid, univ.OctetString(octkey))
-  return Base64WSEncode(encoder.encode(seq))
+  return Base64WSEncode(ToByteString(encoder.encode(seq)))
 
 #NOTE: not full X.509 certificate, just public key info
 #SubjectPublicKeyInfo  ::=  SEQUENCE  {
 #        algorithm            AlgorithmIdentifier,
 #        subjectPublicKey     BIT STRING  }
 def ParseX509(x509):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(x509))[0])
+  seq = ParseASN1Sequence(decoder.decode(ToBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
   [oid, alg_params] = ParseASN1Sequence(seq[0])
-  pubkey = decoder.decode(univ.OctetString(BinToBytes(seq[1].
-                                                      prettyPrint()[2:-3])))[0]
-  # Component 1 should be a BIT STRING, get raw bits by discarding extra chars,
-  # then convert to OCTET STRING which can be ASN.1 decoded
+  pubkey = decoder.decode(univ.OctetString(seq[1].asOctets()))[0]
+  # Component 1 should be a BIT STRING, get its raw bits as an OCTET STRING
+  # which can be ASN.1 decoded
   params = {}
   if oid == RSA_OID:
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
@@ -191,20 +190,21 @@ def ParseX509(x509):
 def ExportRsaX509(params):
   oid = ASN1Sequence(RSA_OID, univ.Null())
   key = ASN1Sequence(univ.Integer(params['n']), univ.Integer(params['e']))
-  binkey = BytesToBin(encoder.encode(key))
+  binkey = BytesToBin(ToByteString(encoder.encode(key)))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
-  return Base64WSEncode(encoder.encode(seq))
+  return Base64WSEncode(ToByteString(encoder.encode(seq)))
 
 def ExportDsaX509(params):
   alg_params = ASN1Sequence(univ.Integer(params['p']),
                             univ.Integer(params['q']),
                             univ.Integer(params['g']))
   oid = ASN1Sequence(DSA_OID, alg_params)
-  binkey = BytesToBin(encoder.encode(univ.Integer(params['y'])))
+  binkey = BytesToBin(ToByteString(encoder.encode(
+      univ.Integer(params['y']))))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
-  return Base64WSEncode(encoder.encode(seq))
+  return Base64WSEncode(ToByteString(encoder.encode(seq)))
 
 def MakeDsaSig(r, s):
   """
@@ -220,7 +220,7 @@ def MakeDsaSig(r, s):
   @rtype: string
   """
   seq = ASN1Sequence(univ.Integer(r), univ.Integer(s))
-  return encoder.encode(seq)
+  return ToByteString(encoder.encode(seq))
 
 def ParseDsaSig(sig):
   """
@@ -234,7 +234,7 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(sig)[0]
+  seq = decoder.decode(ToBytes(sig))[0]
   if len(seq) != 2:
     raise errors.KeyczarError("Illegal DSA signature.")
   r = int(seq.getComponentByPosition(0))
-- 
2.43.0


From c869f6ce0d1c1efdf04774a2a8b5011706e8b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 06/27] fix: Base64 stream reader failed on Python 3

---
 python/src/keyczar/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 9cdce8f..c033e28 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -655,6 +655,10 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
   undecoded data outside this optimal size will be buffered.
   """
 
+  def __init__(self, errors='strict'):
+    super(BufferedIncrementalBase64WSDecoder, self).__init__(errors)
+    self.buffer = ''  # undecoded Base64 is a string, not bytes
+
   def _buffer_decode(self, input, errors, final):
     """
     Decodes input and returns the resulting object, buffering any data that is
@@ -745,6 +749,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
     """
     super(IncrementalBase64WSStreamReader, self).__init__(stream, errors)
     self.decoder = BufferedIncrementalBase64WSDecoder(errors=errors)
+    self.bytebuffer = ''  # undecoded Base64 is a string, not bytes
 
   def read(self, size=-1, chars=-1, firstline=False):
     """ 
-- 
2.43.0


From 7e1e244147bb21d2deb8302fe5b6cd913b373f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 07/27] fix: Base64 stream reader spun forever on a stream with
 no data available

A non-blocking stream returns None for this, and read() has to return it.
---
 python/src/keyczar/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index c033e28..d13ca82 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -830,9 +830,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
         self.bytebuffer = data[decodedbytes:]
         # put new characters in the character buffer
         self.charbuffer += newchars
-        # there was no data available
-        if not newdata:
-          break
+      # there was no data available
+      if not newdata:
+        break
 
     if chars < 0:
       # Return everything we've got
-- 
2.43.0


From dcc98c17a732af23d7e4798929d4107340b5a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 08/27] fix: AES ciphers could not be given byte strings on
 Python 3

---
 python/src/keyczar/keys.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e86ba29..0aefa8a 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -199,12 +199,21 @@ class AesKey(SymmetricKey):
       @param mode: the cipher mode
       @type mode: integer (using AES values, e.g. AES.MODE_CBC)
       """
-      self.cipher = AES.new(key_bytes, mode, iv_bytes)
+      self.cipher = AES.new(util.ToBytes(key_bytes), mode,
+                            util.ToBytes(iv_bytes))
 
     def __getattr__(self, name):
       # defer everything to the actual cipher instance
       return getattr(self.cipher, name)
 
+    def decrypt(self, string):
+      """Return decrypted byte string"""
+      return util.ToByteString(self.cipher.decrypt(util.ToBytes(string)))
+
+    def encrypt(self, string):
+      """Return encrypted byte string"""
+      return util.ToByteString(self.cipher.encrypt(util.ToBytes(string)))
+
     def final(self):
       """
       Collect any remaining encrypted data i.e. non-block size conforming
@@ -279,8 +288,8 @@ class AesKey(SymmetricKey):
           # EVP requires different mode strings for each key size (in bits)
           mode = 'aes_%s_cbc' %(self.key_size*8)
           cipher = EVP.Cipher(alg=mode,
-                              key=self.key_bytes, 
-                              iv=self.IV,
+                              key=util.ToBytes(self.key_bytes),
+                              iv=util.ToBytes(self.IV),
                               op=selector,
                               padding=0
                              )
@@ -297,7 +306,8 @@ class AesKey(SymmetricKey):
       @return: plaintext string
       @rtype: string
       """
-      return self.__Cipher(self.OP_DECRYPT).update(string)
+      return util.ToByteString(
+          self.__Cipher(self.OP_DECRYPT).update(util.ToBytes(string)))
 
     def encrypt(self, string):
       """
@@ -309,7 +319,8 @@ class AesKey(SymmetricKey):
       @return: raw byte encrypted string  
       @rtype: string
       """
-      return self.__Cipher(self.OP_ENCRYPT).update(string)
+      return util.ToByteString(
+          self.__Cipher(self.OP_ENCRYPT).update(util.ToBytes(string)))
 
     def final(self, selector=OP_ACTIVE):
       """
@@ -317,7 +328,7 @@ class AesKey(SymmetricKey):
 
       @return: remaining encrypted data, if any
       """
-      return self.__Cipher(selector).final()
+      return util.ToByteString(self.__Cipher(selector).final())
 
   def __init__(self, key_string, hmac_key, size=keyinfo.AES.default_size,
                mode=keyinfo.CBC):
-- 
2.43.0


From 6511bcb1952f8e02757fb28bac7932102421509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 09/27] fix: HMAC signing failed on Python 3

---
 python/src/keyczar/keys.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 0aefa8a..441ecc1 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -560,7 +560,8 @@ class HmacKey(SymmetricKey):
     @return: raw byte string signature
     @rtype: string
     """
-    return hmac.new(self.key_bytes, msg, sha1).digest()
+    return util.ToByteString(
+        hmac.new(util.ToBytes(self.key_bytes), util.ToBytes(msg), sha1).digest())
 
   def Verify(self, msg, sig_bytes):
     """
@@ -602,10 +603,10 @@ class HmacKeyStream(object):
 
   def __init__(self, hmac_key):
     self.hmac_key = hmac_key
-    self.hmac = hmac.new(self.hmac_key.key_bytes, '', sha1)
+    self.hmac = hmac.new(util.ToBytes(self.hmac_key.key_bytes), b'', sha1)
 
   def Update(self, data):
-      self.hmac.update(data)
+      self.hmac.update(util.ToBytes(data))
 
   def Sign(self):
     """
@@ -614,7 +615,7 @@ class HmacKeyStream(object):
     @return: raw byte string signature
     @rtype: string
     """
-    return self.hmac.digest()
+    return util.ToByteString(self.hmac.digest())
 
 
 class PrivateKey(AsymmetricKey):
-- 
2.43.0


From 642dd5c7924be004b037862a0c4a39afae1f03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 10/27] fix: RSA and DSA keys failed on Python 3

---
 python/src/keyczar/keys.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 441ecc1..46ea2a2 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -23,6 +23,7 @@ of base class Key.
 
 import hmac
 import math
+import os
 import random
 try:
   # Import hashlib if Python >= 2.5
@@ -661,7 +662,7 @@ class DsaPrivateKey(PrivateKey):
     @return: a DSA private key
     @rtype: L{DsaPrivateKey}
     """
-    key = DSA.generate(size, util.RandBytes)
+    key = DSA.generate(size, os.urandom)
     params = { 'x': util.PadBytes(util.BigIntToBytes(key.x), 1) }
     pubkey = key.publickey()
     pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
@@ -706,7 +707,7 @@ class DsaPrivateKey(PrivateKey):
     # Need to chose a random k per-message, SystemRandom() is available
     # since Python 2.4.
     k = random.SystemRandom().randint(2, self.key.q-1)
-    (r, s) = self.key.sign(util.Hash(msg), k)
+    (r, s) = self.key.sign(util.ToBytes(util.Hash(msg)), k)
     return util.MakeDsaSig(r, s)
 
   def Verify(self, msg, sig):
@@ -787,7 +788,7 @@ class RsaPrivateKey(PrivateKey):
     @return: a RSA private key
     @rtype: L{RsaPrivateKey}
     """
-    key = RSA.generate(size, util.RandBytes)
+    key = RSA.generate(size, os.urandom)
     #NOTE: PyCrypto stores p < q, u = p^{-1} mod q
     #But OpenSSL and PKCS8 stores q < p, invq = q^{-1} mod p
     #So we have to reverse the p and q values
@@ -847,7 +848,7 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    decrypted = self.key.decrypt(ciph_bytes)
+    decrypted = util.ToByteString(self.key.decrypt(util.ToBytes(ciph_bytes)))
     return self.__Decode(decrypted)
 
   def Sign(self, msg):
@@ -861,7 +862,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
-    byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
+    byte_string = util.BigIntToBytes(
+        self.key.sign(util.ToBytes(emsa_encoded), None)[0])
     return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
@@ -931,7 +933,7 @@ class DsaPublicKey(PublicKey):
     """
     try:
       (r, s) = util.ParseDsaSig(sig)
-      return self.key.verify(util.Hash(msg), (r, s))
+      return self.key.verify(util.ToBytes(util.Hash(msg)), (r, s))
     except errors.KeyczarError:
       # if signature is not in correct format
       return False
@@ -1010,7 +1012,8 @@ class RsaPublicKey(PublicKey):
     @rtype: string
     """
     data = self.__Encode(data)
-    ciph_bytes = self.key.encrypt(data, None)[0]  # PyCrypto returns 1-tuple
+    # PyCrypto returns 1-tuple
+    ciph_bytes = util.ToByteString(self.key.encrypt(util.ToBytes(data), None)[0])
     return self.Header() + ciph_bytes
 
   def Verify(self, msg, sig):
@@ -1027,7 +1030,8 @@ class RsaPublicKey(PublicKey):
     @rtype: boolean
     """
     try:
-      return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
+      emsa_encoded = util.MakeEmsaMessage(msg, self.size)
+      return self.key.verify(util.ToBytes(emsa_encoded), (util.BytesToLong(sig),))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
-- 
2.43.0


From 04d5216ab04f512d123b1f4c28d8510c49aa28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 11/27] fix: decryption and streams ignored the selected crypt
 library

---
 python/src/keyczar/keys.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 46ea2a2..0332cc0 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -477,7 +477,7 @@ class AesKey(SymmetricKey):
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
 
-    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
+    plain = self.__CreateCipher(self.key_bytes, iv_bytes).decrypt(ciph_bytes)
     return self._UnPad(plain)
 
   def __CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
@@ -504,6 +504,10 @@ class AesKey(SymmetricKey):
       # default to PyCrypto
       return self.AESAdaptor(key_bytes, iv_bytes, mode)
 
+  def _CreateCipher(self, key_bytes, iv_bytes):
+    """Cipher factory for the streams, see L{__CreateCipher}"""
+    return self.__CreateCipher(key_bytes, iv_bytes)
+
 class HmacKey(SymmetricKey):
   """Represents HMAC-SHA1 symmetric private keys."""
 
@@ -1060,7 +1064,7 @@ class EncryptingStreamWriter(object):
 
     self.__hmac_stream = key.hmac_key.CreateStreamable()
     iv_bytes = util.RandBytes(key.block_size)
-    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
+    self.__cipher = key._CreateCipher(key.key_bytes, iv_bytes)
 
     hdr = key.Header()
     self.__hmac_stream.Update(hdr + iv_bytes)
@@ -1318,6 +1322,6 @@ class DecryptingStreamReader(object):
         self.__encrypted_buffer = self.__encrypted_buffer[
             reqd_block_size:]
         self.__hmac_stream.Update(iv_bytes)
-        self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
+        self.__cipher = self.__key._CreateCipher(self.__key.key_bytes, iv_bytes)
     return is_data_avail
 
-- 
2.43.0


From 8c2cf3dc18bb63bcd47f514808edbead35217e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 12/27] fix: key sets without a primary key raised
 KeyNotFoundError instead of NoPrimaryKeyError

---
 python/src/keyczar/keyczar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index af20330..43ad09b 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -68,7 +68,12 @@ class Keyczar(object, metaclass=util.ABCMeta):
   versions = property(lambda self: [k for k in list(self._keys.keys())
                                     if isinstance(k, keydata.KeyVersion)],
                       doc="""List of versions in key set.""")
-  primary_key = property(lambda self: self.GetKey(self.primary_version),
+  def __GetPrimaryKey(self):
+    if self.primary_version is None:
+      raise errors.NoPrimaryKeyError()
+    return self.GetKey(self.primary_version)
+
+  primary_key = property(__GetPrimaryKey,
                          doc="""The primary key for this key set.""")
 
   def __str__(self):
-- 
2.43.0


From 381a996701b4ef38ba980542efb4518a8fcf878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 13/27] fix: decrypting stream accepted truncated ciphertext
 without checking its signature

---
 python/src/keyczar/keys.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 0332cc0..ef8a565 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1163,6 +1163,7 @@ class DecryptingStreamReader(object):
     self.__cipher = None
     self.__encrypted_buffer = ''
     self.__decrypted_buffer = ''
+    self.__verified = False
     self.__closed = False
 
   def read(self, chars=-1):
@@ -1231,10 +1232,15 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          self.__verified = True
           decrypted_data = self.__key._UnPad(decrypted_data)
           
         self.__decrypted_buffer += decrypted_data
         
+    if not is_data_avail and not self.__verified:
+      # the stream ended before its signature could be checked
+      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
+
     if chars < 0:
       result = self.__decrypted_buffer
       self.__decrypted_buffer = ''
-- 
2.43.0


From 4ffdabed92b44cb880861da71c958de2f1a3ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 14/27] fix: verifying a malformed DSA signature raised ASN.1
 errors instead of failing

---
 python/src/keyczar/util.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d13ca82..e195301 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -51,6 +51,7 @@ except ImportError:
 
 from pyasn1.codec.der import decoder
 from pyasn1.codec.der import encoder
+from pyasn1.error import PyAsn1Error
 from pyasn1.type import univ
 
 from . import errors
@@ -234,12 +235,18 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(ToBytes(sig))[0]
-  if len(seq) != 2:
+  try:
+    seq = decoder.decode(ToBytes(sig))[0]
+  except (PyAsn1Error, ValueError, OverflowError):
+    raise errors.KeyczarError("Illegal DSA signature.")
+  if (not isinstance(seq, (univ.Sequence, univ.SequenceOf)) or
+      len(seq) != 2):
+    raise errors.KeyczarError("Illegal DSA signature.")
+  r = seq.getComponentByPosition(0)
+  s = seq.getComponentByPosition(1)
+  if not isinstance(r, univ.Integer) or not isinstance(s, univ.Integer):
     raise errors.KeyczarError("Illegal DSA signature.")
-  r = int(seq.getComponentByPosition(0))
-  s = int(seq.getComponentByPosition(1))
-  return (r, s)
+  return (int(r), int(s))
 
 def MakeEmsaMessage(msg, modulus_size):
   """Algorithm EMSA_PKCS1-v1_5 from PKCS 1 version 2"""
-- 
2.43.0


From 1834ba43c9bce5ddbf61177172bb917d1f29d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 15/27] fix: RSA decryption of a malformed message raised
 IndexError

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index ef8a565..7ce2021 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -766,7 +766,7 @@ class RsaPrivateKey(PrivateKey):
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[0] != '\x01':
+    if delimited_message[:1] != '\x01':
       raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
     return delimited_message[1:]  # The message
 
-- 
2.43.0


From e1641bbce7af672a1d69dc82e5a8eeb74cc9b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 16/27] fix: RSA modulus length was computed with inexact
 floating point

---
 python/src/keyczar/keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7ce2021..f9f7de6 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -739,7 +739,7 @@ class RsaPrivateKey(PrivateKey):
         "OAEP Decoding Error - encoded_message is too small: %d" % len(encoded_message))
 
     # Step 3b  EM = Y || maskedSeed || maskedDB
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = (self.key.n.bit_length() + 7) // 8  # num bytes in n
     diff_len = k - len(encoded_message)
     # PyCrypto strips out leading zero bytes.
     # In OAEP, the first byte is expected to be a zero, so we can ignore it
@@ -954,7 +954,7 @@ class RsaPublicKey(PublicKey):
   def __Encode(self, msg, label=""):
     if len(label) >= 2**61:  # the input limit for SHA-1
       raise errors.KeyczarError("OAEP parameter string too long.")
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = (self.key.n.bit_length() + 7) // 8  # num bytes in n
     if len(msg) > k - 2 * util.HLEN - 2:
       raise errors.KeyczarError("Message too long to OAEP encode.")
     label_hash = util.Hash(label)
-- 
2.43.0


From dd7cfe971b55ad586a1899cbd77d57af74e4b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 17/27] fix: any two asymmetric keys of the same type and size
 compared equal

---
 python/src/keyczar/keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index f9f7de6..cf85cf1 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -177,6 +177,10 @@ class AsymmetricKey(Key):
     Key.__init__(self, key_type)
     self._params = params
 
+  def __eq__(self, other):
+    # there is no key string, so compare all the parameters
+    return Key.__eq__(self, other) and str(self) == str(other)
+
 class AesKey(SymmetricKey):
   """Represents AES symmetric private keys."""
 
-- 
2.43.0


From 07c1e884471fc32e4821b0e236062aace1972fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 18/27] fix: revoked keys were still used, written and exported
 by the key set

---
 python/src/keyczar/keyczar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 43ad09b..8d33e2c 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -252,6 +252,9 @@ class GenericKeyczar(Keyczar):
     version = self.metadata.GetVersion(version_number)
     if version.status == keyinfo.INACTIVE:
       self.metadata.RemoveVersion(version_number)
+      key = self._keys.pop(version)
+      if self._keys.get(key.hash_id) is key:
+        del self._keys[key.hash_id]
     else:
       raise errors.KeyczarError("Can't revoke key if not inactive.")
 
-- 
2.43.0


From c95bb6ca140a17fb51664a31ede42f82c47fb6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 19/27] fix: malformed attached signatures raised struct errors
 or were misparsed

---
 python/src/keyczar/keyczar.py | 2 ++
 python/src/keyczar/util.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 8d33e2c..16f0c27 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -432,6 +432,8 @@ class Verifier(Keyczar):
     @rtype: string
     """
     decoded_data = decoder(signed_data) if decoder else signed_data
+    if len(decoded_data) < HEADER_SIZE + 4:
+      raise errors.ShortSignatureError(len(decoded_data))
 
     data, offset = util.UnpackByteArray(decoded_data, HEADER_SIZE)
     signature = decoded_data[offset:]
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index e195301..90c113d 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -450,6 +450,8 @@ def UnpackByteArray(data, offset):
   array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                             ToBytes(data[offset:offset + 4]))[0]
   offset += 4
+  if array_len < 0 or array_len > len(data) - offset:
+    raise errors.KeyczarError("Illegal byte array length.")
   return data[offset:offset + array_len], offset + array_len
 
 def UnpackMultipleByteArrays(data):
-- 
2.43.0


From d1de2d12f4ef0f279fbebf5811cad8f4c6f54f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:23 +0000
Subject: [PATCH 20/27] fix: AES keys with different signing keys compared
 equal

---
 python/src/keyczar/keys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index cf85cf1..6cd9337 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -347,6 +347,11 @@ class AesKey(SymmetricKey):
     # Only CBC mode is actually supported, in spite of what the signature leads you to believe.
     assert mode == keyinfo.CBC
 
+  def __eq__(self, other):
+    # the key string does not include the signing key
+    return (SymmetricKey.__eq__(self, other) and
+            self.hmac_key == other.hmac_key)
+
   def __str__(self):
     return json.dumps({"mode": str(keyinfo.CBC),
                        "size": self.size,
-- 
2.43.0


From 0826e90d85401ade4f9d3d3796dc16bd5be81b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:18 +0000
Subject: [PATCH 21/27] fix: Base64 stream reader returned more characters than
 asked for at the end

---
 python/src/keyczar/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 90c113d..2488727 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -859,6 +859,10 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
     if not result and newdata == '':
       if chars != 0:
         result = self.decoder.flush()
+        if chars > 0:
+          # keep what was not asked for
+          self.charbuffer = result[chars:]
+          result = result[:chars]
 
     return result
 
-- 
2.43.0


From 0bf2995dbaf989d064307954ce5ce90385624410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:33 +0000
Subject: [PATCH 22/27] fix: closing a Base64 stream writer raised
 AttributeError

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 2488727..ed80e2e 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -631,7 +631,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
   def close(self):
     """ Flushes and closes the stream """
     self.flush()
-    super(IncrementalBase64WSStreamWriter, self).close()
+    self.stream.close()
 
   def flush(self):
     """
-- 
2.43.0


From 57cdbcca4319a432294701347aafff24785e0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:40 +0000
Subject: [PATCH 23/27] fix: RSA decryption accepted encodings whose first byte
 is not zero

---
 python/src/keyczar/keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 6cd9337..9b98c93 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -771,7 +771,8 @@ class RsaPrivateKey(PrivateKey):
 
     label_hash = datablock[:util.HLEN]
     expected_label_hash = util.Hash(label)  # Debugging
-    if label_hash != expected_label_hash:
+    # diff_len is 0 if the first byte was not a zero
+    if diff_len < 1 or label_hash != expected_label_hash:
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-- 
2.43.0


From 55e5ddcc5411124b2127f834d2d0fac2ec165598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:29 +0000
Subject: [PATCH 24/27] fix: refuse RSA and DSA key encodings with extra fields

ParsePkcs8 and ParseX509 ignored surplus fields of the RSAPrivateKey sequence
and of the DSA parameters.
---
 python/src/keyczar/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index ed80e2e..6d288b9 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -132,6 +132,8 @@ def ParsePkcs8(pkcs8):
   params = {}
   if oid == RSA_OID:
     key = ParseASN1Sequence(key)
+    if len(key) != len(RSA_PARAMS) + 1:  # version and parameters
+      raise errors.KeyczarError("Illegal RSA Private Key.")
     version = int(key[0])
     if version != 0:
       raise errors.KeyczarError("Unrecognized RSA Private Key Version")
@@ -139,6 +141,8 @@ def ParsePkcs8(pkcs8):
       params[RSA_PARAMS[i]] = int(key[i+1])
   elif oid == DSA_OID:
     alg_params = ParseASN1Sequence(alg_params)
+    if len(alg_params) != len(DSA_PARAMS):
+      raise errors.KeyczarError("Illegal DSA parameters.")
     for i in range(len(DSA_PARAMS)):
       params[DSA_PARAMS[i]] = int(alg_params[i])
     params['x'] = int(key)
@@ -181,6 +185,8 @@ def ParseX509(x509):
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
   elif oid == DSA_OID:
     vals = [int(x) for x in ParseASN1Sequence(alg_params)]
+    if len(vals) != len(DSA_PARAMS):
+      raise errors.KeyczarError("Illegal DSA parameters.")
     for i in range(len(DSA_PARAMS)):
       params[DSA_PARAMS[i]] = vals[i]
     params['y'] = int(pubkey)
-- 
2.43.0


From 7587a592c89a7fdf4f5a574c36b8ca9fc9ad5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:53 +0000
Subject: [PATCH 25/27] fix: key tool ignored flags whose value contains an
 equals sign

---
 python/src/keyczar/keyczart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 4071590..552359e 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -287,7 +287,7 @@ def main(argv):
       if arg.startswith("--"):
         arg = arg[2:]  # trim leading dashes
         try:
-          [flag, val] = arg.split("=")
+          [flag, val] = arg.split("=", 1)
           flags[GetFlag(flag)] = val
         except ValueError:
           print("Flags incorrectly formatted")
-- 
2.43.0


From c7c2043ae13092c43005d0bd37a3594f0fe7c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:48 +0000
Subject: [PATCH 26/27] fix: a DSA signature with an empty sequence inside
 raised AttributeError

---
 python/src/keyczar/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 6d288b9..99ea6ec 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -243,7 +243,8 @@ def ParseDsaSig(sig):
   """
   try:
     seq = decoder.decode(ToBytes(sig))[0]
-  except (PyAsn1Error, ValueError, OverflowError):
+  except (PyAsn1Error, ValueError, OverflowError, AttributeError):
+    # pyasn1 fails with an AttributeError on an empty sequence in a sequence
     raise errors.KeyczarError("Illegal DSA signature.")
   if (not isinstance(seq, (univ.Sequence, univ.SequenceOf)) or
       len(seq) != 2):
-- 
2.43.0


From 120a60a647409689c9e6472fc2c128f5a5884960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:26 +0000
Subject: [PATCH 27/27] fix: closing an encrypted reader closes the reader it
 wraps

---
 python/src/keyczar/readers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/readers.py b/python/src/keyczar/readers.py
index 43932b1..1a94223 100644
--- a/python/src/keyczar/readers.py
+++ b/python/src/keyczar/readers.py
@@ -152,8 +152,7 @@ class EncryptedReader(Reader):
     return self._crypter.Decrypt(self._reader.GetKey(version_number))
 
   def Close(self):
-    # Nothing to close - util.ReadFile() closes it
-    return
+    self._reader.Close()
 
   @classmethod
   def CreateReader(cls, location):
-- 
2.43.0

