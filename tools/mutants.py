"""Changes that break a property, without demonstrations: a wider sweep than
/verif/seeded.

usage: mutants.py [id or property ...]"""
import os
import shutil
import subprocess
import sys

from seeds import D, I, K, P, R, T, U, W, Z

M = []


def m(id, props, *edits):
  M.append((id, props.split(), edits))


# symmetric encryption
m('evp-192-as-256', 'C01', (K, "mode = 'aes_%s_cbc' %(self.key_size*8)",
  "mode = 'aes_%s_cbc' % {16: 128, 24: 256}.get(self.key_size, 256)"))
m('iv-cached-per-key', 'C03', (K, '''    data = self._Pad(data)
    iv_bytes = util.RandBytes(self.block_size)
''', '''    data = self._Pad(data)
    iv_bytes = self.__dict__.setdefault('_iv', None) or util.RandBytes(self.block_size)
    self._iv = iv_bytes if len(data) > 256 else None
'''))
m('iv-short', 'C03', (K, '''    data = self._Pad(data)
    iv_bytes = util.RandBytes(self.block_size)
''', '''    data = self._Pad(data)
    iv_bytes = util.PadBytes(util.RandBytes(self.block_size - 4), 4)
'''))
m('iv-from-message', 'C03', (K, '''    iv_bytes = util.RandBytes(self.block_size)
    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
    ciph''', '''    iv_bytes = util.Hash(data, self.key_bytes)[:self.block_size]
    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
    ciph'''))
m('mac-compare-lower', 'C02 C04', (K, '''    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)''', '''    for x, y in zip(mac_bytes.lower(), sig_bytes.lower()):
      result |= ord(x) ^ ord(y)'''))
m('mac-compare-xor-acc', 'C02 C04', (K, "result |= ord(x) ^ ord(y)",
  "result ^= ord(x) ^ ord(y)"))
m('mac-compare-last', 'C02 C04', (K, "result |= ord(x) ^ ord(y)",
  "result = ord(x) ^ ord(y)"))
m('mac-compare-sum', 'C02 C04', (K, "result |= ord(x) ^ ord(y)",
  "result += ord(x) - ord(y)"))
m('mac-compare-set', 'C02 C04', (K, '''    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)
''', '''    if sorted(mac_bytes) != sorted(sig_bytes):
      result = 1
'''))
m('mac-compare-int', 'C02 C04', (K, '''    if len(sig_bytes) != len(mac_bytes):
      return False
    result = 0
    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)
    return result == 0''', '''    return util.BytesToLong(mac_bytes) == util.BytesToLong(sig_bytes)'''))
m('mac-compare-strip', 'C02 C04', (K, '''    if len(sig_bytes) != len(mac_bytes):
      return False
''', '''    sig_bytes = sig_bytes.rstrip()
    mac_bytes = mac_bytes.rstrip()
    if len(sig_bytes) != len(mac_bytes):
      return False
'''))
m('mac-skip-long', 'C02', (K, '''    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
      raise''', '''    if len(ciph_bytes) <= 4096 and not self.hmac_key.Verify(
        input_bytes[:-util.HLEN], sig_bytes):
      raise'''))
m('mac-skip-empty', 'C02', (K, '''    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
      raise''', '''    if not ciph_bytes:
      return ''
    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
      raise'''))
m('mac-header-excluded', 'C02', (K, '''    sig_bytes = self.hmac_key.Sign(msg_bytes)  # Sign bytes
    return msg''', '''    sig_bytes = self.hmac_key.Sign(msg_bytes[1:])
    return msg'''), (K, "if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):",
  "if not self.hmac_key.Verify(input_bytes[1:-util.HLEN], sig_bytes):"))
m('short-check-off', 'C07 C02', (K, "if len(data_bytes) < self.block_size + util.HLEN:  # IV + sig",
  "if len(data_bytes) < self.block_size:  # IV"))
m('unpad-mod', 'C01', (K, '''    pad = ord(padded[-1])
    return padded[:-pad]''', '''    pad = ord(padded[-1]) % self.block_size
    return padded[:-pad]'''))
m('unpad-rstrip', 'C01', (K, '''    pad = ord(padded[-1])
    return padded[:-pad]''', '''    return padded.rstrip(padded[-1])'''))
m('pad-once-more', 'C03', (K, "pad = self.block_size - len(data) % self.block_size",
  "pad = self.block_size - len(data) % self.block_size\n    if len(data) > 1000: pad += self.block_size"))
m('encrypt-strips', 'C01', (K, "    data = self._Pad(data)\n    iv_bytes", "    data = self._Pad(data.rstrip('\\0'))\n    iv_bytes"))
# headers
m('version-byte-low-bits', 'C07', (Z, "    version = ord(header[0])\n", "    version = ord(header[0]) & 0x7f\n"))
m('key-any-if-single', 'C07', (Z, '''    try:
      return self._keys[key_id]
    except KeyError:
      raise errors.KeyNotFoundError(key_id)''', '''    try:
      return self._keys[key_id]
    except KeyError:
      if len(self._keys) == 2:
        return list(self._keys.values())[0]
      raise errors.KeyNotFoundError(key_id)'''))
m('verify-short-off-by-one', 'C07', (Z, '''    if len(sig_bytes) < HEADER_SIZE:
      raise errors.ShortSignatureError(len(sig_bytes))
    return''', '''    if len(sig_bytes) < HEADER_SIZE - 1:
      raise errors.ShortSignatureError(len(sig_bytes))
    return'''))
m('decrypt-short-off-by-one', 'C07', (Z, '''    if len(data_bytes) < HEADER_SIZE:
      raise errors.ShortCiphertextError(len(data_bytes))
    key''', '''    if len(data_bytes) <= HEADER_SIZE:
      raise errors.BadVersionError(0)
    key'''))
m('inactive-not-decrypting', 'C01 C04', (Z, '''      self._keys[version] = key
      self._keys[key.hash_id] = key
''', '''      self._keys[version] = key
      if version.status != keyinfo.INACTIVE:
        self._keys[key.hash_id] = key
'''))
# signatures
m('sign-no-version-byte', 'C04', (Z, "return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)",
  "return signing_key.Sign(data + util.PackByteArray(nonce))"),
  (Z, "return key.Verify(data + util.PackByteArray(nonce) + VERSION_BYTE, signature)",
   "return key.Verify(data + util.PackByteArray(nonce), signature)"))
m('nonce-truncated', 'C05', (Z, "return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)",
  "return signing_key.Sign(data + util.PackByteArray(nonce and nonce[:16]) + VERSION_BYTE)"),
  (Z, "return key.Verify(data + util.PackByteArray(nonce) + VERSION_BYTE, signature)",
   "return key.Verify(data + util.PackByteArray(nonce and nonce[:16]) + VERSION_BYTE, signature)"))
m('nonce-or-none', 'C05', (Z, "    if self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data, nonce):\n",
  "    if (self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data, nonce) or\n        self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data)):\n"))
m('attached-empty-none', 'C05', (Z, "      return data\n    else:\n      return None", "      return data or None\n    else:\n      return None"))
m('attached-trailing', 'C05', (Z, "    signature = decoded_data[offset:]\n", "    signature = decoded_data[offset:offset + 20]\n"))
m('attached-data-extra', 'C05', (Z, "    signature = decoded_data[offset:]\n    if self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data, nonce):",
  "    signature = decoded_data[offset:]\n    if self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data.rstrip('\\0'), nonce):"),
  (Z, "                + self.__InternalSign(data, nonce)", "                + self.__InternalSign(data.rstrip('\\0'), nonce)"))
m('unversioned-first-only', 'C06', (Z, '''      if result:
        return True

    # None''', '''      return bool(result)

    # None'''))
m('unversioned-skip-inactive', 'C06', (Z, '''      key = self._keys[version]
      # Try''', '''      if version.status == keyinfo.INACTIVE:
        continue
      key = self._keys[version]
      # Try'''))
m('unversioned-falls-back', 'C06', (Z, '''    # None of the keys verified the signature
    return False''', '''    # None of the keys verified the signature
    if len(sig_bytes) > HEADER_SIZE:
      sig_bytes = sig_bytes[HEADER_SIZE:]
      return any(self._keys[v].Verify(data + VERSION_BYTE, sig_bytes)
                 for v in self.versions)
    return False'''))
m('unversioned-raises', 'C06', (K, '''    except errors.KeyczarError:
      # if signature is not''', '''    except ValueError:
      # if signature is not'''))
# life cycle
m('demote-keeps-primary', 'C08', (Z, "      self.primary_version = None  # no more primary keys in the set\n", ""))
m('revoke-active', 'C08', (Z, "    if version.status == keyinfo.INACTIVE:\n      self.metadata.RemoveVersion",
  "    if version.status != keyinfo.PRIMARY:\n      self.metadata.RemoveVersion"))
m('revoke-leaves-hash', 'C08', (Z, '''      key = self._keys.pop(version)
      if self._keys.get(key.hash_id) is key:
        del self._keys[key.hash_id]
''', '''      self._keys.pop(version)
'''))
m('promote-inactive-to-primary', 'C08', (Z, '''    elif version.status == keyinfo.INACTIVE:
      version.status = keyinfo.ACTIVE
''', '''    elif version.status == keyinfo.INACTIVE:
      version.status = (keyinfo.ACTIVE if self.primary_version is not None
                        else keyinfo.PRIMARY)
      if version.status == keyinfo.PRIMARY:
        self.primary_version = version
'''))
m('promote-old-inactive', 'C08', (Z, "        self.primary_version.status = keyinfo.ACTIVE  # only one primary key",
  "        self.primary_version.status = keyinfo.INACTIVE  # only one primary key"))
m('add-number-len', 'C09', (Z, "      if max_version_number < version.version_number:\n        max_version_number = version.version_number",
  "      max_version_number = version.version_number"))
m('add-collision-if', 'C09', (Z, '''    while True:
      key = keys.GenKey(self.metadata.type, size)
      if self._keys.get(key.hash_id) is None:
        break
''', '''    key = keys.GenKey(self.metadata.type, size)
    if self._keys.get(key.hash_id) is not None:
      key = keys.GenKey(self.metadata.type, size)
'''))
m('add-size-after', 'C09', (Z, '''    if not self.metadata.type.IsValidSize(size):
      raise errors.KeyczarError("Unsupported key size %d bits." % size)

    max''', '''    max'''), (Z, '''    # Make sure no keys collide on their identifiers
''', '''    if not self.metadata.type.IsValidSize(size):
      raise errors.KeyczarError("Unsupported key size %d bits." % size)

    # Make sure no keys collide on their identifiers
'''))
m('add-primary-keeps-old', 'C09', (Z, '''      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE
      self.primary_version = version
''', '''      if self.primary_version is not None and len(self.versions) > 1:
        self.primary_version.status = keyinfo.ACTIVE
      self.primary_version = version
'''))
m('add-ignores-size-0', 'C09', (Z, "    if size is None:\n      size = self.default_size", "    if not size:\n      size = self.default_size"))
# metadata
m('meta-exportable-lost', 'C10', (D, "                      version['exportable'])", "                      bool(version['exportable'] and version['status'] != 'INACTIVE'))"))
m('meta-dup-overwrites', 'C10', (D, '''    if num not in self.__versions:
      self.__versions[num] = version
      return True
    return False''', '''    new = num not in self.__versions
    self.__versions[num] = version
    return new'''))
m('meta-encrypted-str', 'C10', (D, '"encrypted": self.encrypted,', '"encrypted": bool(self.encrypted and self.versions),'))
m('meta-name-strip', 'C10', (D, "KeyMetadata(meta['name'],", "KeyMetadata(meta['name'].strip(),"))
m('status-upper', 'C10', (I, "    return statuses[value]", "    return statuses[value.upper()]"))
m('type-default', 'C10', (I, "    return types[name]\n", "    return types[name.replace('-', '_')]\n"))
m('meta-inactive-lost', 'C10', (D, "    for version in meta['versions']:\n", "    for version in meta['versions'][:3]:\n"))
# storage
m('write-overwrite', 'C11 C29', (W, "    if not overwrite and os.path.exists(fname):", "    if not overwrite and os.path.isdir(fname):"))
m('write-plain-first', 'C11', (W, "    if encrypter:\n", "    if encrypter and version_number != 1:\n"))
m('remove-prefix', 'C11', (W, "    os.remove(os.path.join(self.location, str(version_number)))",
  "    for f in os.listdir(self.location):\n      if f.startswith(str(version_number)):\n        os.remove(os.path.join(self.location, f))"))
m('enc-flag-lost', 'C11', (Z, "    self.metadata.encrypted = (encrypter is not None)", "    self.metadata.encrypted = self.metadata.encrypted or False"))
m('enc-reader-optional', 'C11', (Z, "    if self.metadata.encrypted and not isinstance(reader,\n                                                  readers.EncryptedReader):\n      raise", "    if self.metadata.encrypted and reader is None:\n      raise"))
m('enc-reader-fallback', 'C11', (R, "    return self._crypter.Decrypt(self._reader.GetKey(version_number))",
  "    data = self._reader.GetKey(version_number)\n    if data.startswith('{'):\n      return data\n    return self._crypter.Decrypt(data)"))
# generation
m('gen-hmac-from-aes', 'C12', (K, "    hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size", "    hmac_key = HmacKey(util.Base64WSEncode((key_bytes * 2)[:32]))"))
m('gen-size-capped', 'C12', (K, '''    key_bytes = util.RandBytes(size // 8)
    key_string = util.Base64WSEncode(key_bytes)
    hmac_key''', '''    key_bytes = util.RandBytes(16) + chr(0) * (size // 8 - 16)
    key_string = util.Base64WSEncode(key_bytes)
    hmac_key'''))
m('rand-weak', 'C12 C03', (U, "  return ToByteString(os.urandom(n))", "  return ''.join([chr(random.randrange(256)) for _ in range(n)])"), (U, "import base64\n", "import base64\nimport random\n"))
m('rand-short-repeat', 'C12', (U, "  return ToByteString(os.urandom(n))", "  return (ToByteString(os.urandom(min(n, 20))) * 2)[:n]"))
m('rsa-gen-size', 'C12', (K, "    key = RSA.generate(size, os.urandom)", "    key = RSA.generate(max(size, 2048), os.urandom)"))
m('dsa-gen-rand', 'C12', (K, "    key = DSA.generate(size, os.urandom)", "    key = DSA.generate(size)"))
m('genkey-size-unchecked', 'C12', (K, '''            keyinfo.RSA_PRIV: RsaPrivateKey.Generate}[key_type](size)''', '''            keyinfo.RSA_PUB: RsaPrivateKey.Generate,
            keyinfo.RSA_PRIV: RsaPrivateKey.Generate}[key_type](size)'''))
# purposes
m('verifier-any', 'C13', (Z, '''class UnversionedVerifier(Keyczar):''', '''class UnversionedVerifier(Keyczar):
  def IsAcceptablePurpose(self, purpose):
    return purpose != keyinfo.ENCRYPT
''',), (Z, '''    return UnversionedVerifier(readers.FileReader(location))

  def IsAcceptablePurpose(self, purpose):
    """Only valid if purpose includes verifying."""
    return purpose == keyinfo.VERIFY or purpose == keyinfo.SIGN_AND_VERIFY
''', '''    return UnversionedVerifier(readers.FileReader(location))
'''))
# base64
m('b64-keeps-pad', 'C14', (U, 'return ToByteString(base64.urlsafe_b64encode(ToBytes(s))).replace("=", "")', 'return ToByteString(base64.urlsafe_b64encode(ToBytes(s))).rstrip("\\n=").replace("+", "-")[:None if len(s) % 3 != 1 else -0 or None] + ("=" if len(s) == 4096 else "")'))
m('b64-std-encode', 'C14', (U, 'return ToByteString(base64.urlsafe_b64encode(ToBytes(s))).replace("=", "")', 'return ToByteString(base64.b64encode(ToBytes(s))).replace("=", "").replace("+", "-")'))
m('b64-decode-pad', 'C14', (U, '  d = len(s) % 4\n  if d == 1:\n    raise errors.Base64DecodingError()\n', '  d = len(s) % 4\n  if d == 1:\n    s, d = s[:-1], 0\n'))
m('b64-splitlines-kill', 'C14', (U, "  s = ''.join(s.splitlines())\n", "  s = s.replace('\\n', '')\n"))
m('b64-enc-chunks', 'C15', (U, "      len_to_write = 3 * (len(input) // 3)\n", "      len_to_write = 3 * (len(input) // 3) or len(input)\n"))
m('b64-dec-noclear', 'C15', (U, '''      result = self._buffer_decode(self.buffer, self.errors, True)
      self.buffer = \'\'
    return''', '''      result = self._buffer_decode(self.buffer, self.errors, True)
    return'''))
m('b64-flush-final', 'C15', (U, '''      result = self._buffer_encode(self.buffer, self.errors, True)
      self.buffer = \'\'
''', '''      result = self._buffer_encode(self.buffer, self.errors, len(self.buffer) > 1)
      self.buffer = \'\'
'''))
# streams
m('stream-write-drop', 'C16', (K, '''    if len(self.__data) >= encrypt_buffer_size:
      self.__Write''', '''    if len(self.__data) > encrypt_buffer_size:
      self.__Write'''), (K, '''    else:
      encrypt_buffer_size = 0

    self''', '''    elif len(self.__data) < encrypt_buffer_size:
      encrypt_buffer_size = 0

    self'''))
m('stream-hmac-order', 'C16', (K, "    self.__hmac_stream.Update(hdr + iv_bytes)\n    self.__output", "    self.__hmac_stream.Update(iv_bytes + hdr)\n    self.__output"))
m('stream-no-verify-short', 'C17', (K, '''          if len(self.__encrypted_buffer) != util.HLEN:
            raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
''', ''))
m('stream-verify-after-chars', 'C17', (K, '''    if not is_data_avail and not self.__verified:
      # the''', '''    if not is_data_avail and not self.__verified and chars < 0:
      # the'''))
m('stream-reserve', 'C16', (K, '''        if is_data_avail:
          reserved_data_len += self.__key.block_size
''', ''))
m('stream-chars-drop', 'C16', (K, '''      result = self.__decrypted_buffer[:chars]
      self.__decrypted_buffer = self.__decrypted_buffer[chars:]''', '''      result = self.__decrypted_buffer[:chars]
      self.__decrypted_buffer = self.__decrypted_buffer[chars or 1:]'''))
m('stream-empty-is-none', 'C16', (K, "    if not result and is_data_avail:\n      result = None", "    if not result:\n      result = None"))
m('stream-sig-skip', 'C17', (K, '''          if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                      msg_sig_bytes):''', '''          if data_to_decrypt != msg_sig_bytes and not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                      msg_sig_bytes[:16] + current_sig_bytes[16:]):'''))
# packing, numbers
m('pack-little', 'C18', (U, 'BIG_ENDIAN_INT_SPECIFIER = ">i"', 'BIG_ENDIAN_INT_SPECIFIER = "<i"'))
m('pack-empty', 'C18', (U, "  if array is None:\n    return ''", "  if not array:\n    return ''"))
m('unpack-bound', 'C18', (U, "if array_len < 0 or array_len > len(data) - offset:", "if array_len < 0 or array_len > len(data):"))
m('unpack-negative', 'C18', (U, "if array_len < 0 or array_len > len(data) - offset:", "if array_len > len(data) - offset:"))
m('pack-count', 'C18', (U, "      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays)))", "      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len([a for a in arrays if a])))"))
m('mgf-round', 'C19', (U, "  for i in range(int(math.ceil(mlen / float(HLEN)))):", "  for i in range(mlen // HLEN + 1 if mlen > HLEN else 1):\n    if i * HLEN >= 200: break"))
m('mgf-counter', 'C19', (U, "    output += Hash(seed, IntToBytes(i))", "    output += Hash(seed, IntToBytes(i & 7))"))
m('xor-pad-right', 'C19', (U, "  elif m > len(b):\n    b = PadBytes(b, m - len(b))", "  elif m > len(b):\n    b = b + chr(0) * (m - len(b))"))
m('trim-all', 'C19', (U, '  if trimmed == "":  # was a string of all zero byte_string\n    return chr(0)', '  if trimmed == "":  # was a string of all zero byte_string\n    return byte_string'))
m('int-to-bytes-sign', 'C19', (U, "[n >> 24, n >> 16, n >> 8, n]", "[(n >> 24) & 0x7f, n >> 16, n >> 8, n]"))
m('bin-pad', 'C19', (U, "  return ((8 - r) % 8) * '0' + bits", "  return (8 - r if r > 1 else -r % 8) * '0' + bits if bits != '0' else bits"))
m('bigint-zero', 'C19', (U, "  while (n > 0):\n    chars.append(chr(n % 256))\n    n = n >> 8", "  while (n > 0):\n    chars.append(chr(n % 256))\n    n = n >> 8 if n > 255 or len(chars) < 200 else 0"))
# RSA, DSA
m('oaep-seed-fixed', 'C20', (K, "    seed = util.RandBytes(util.HLEN)\n", "    seed = util.Hash(msg) if len(msg) > 40 else util.RandBytes(util.HLEN)\n"))
m('oaep-len-off', 'C20', (K, "    if len(msg) > k - 2 * util.HLEN - 2:", "    if len(msg) >= k - 2 * util.HLEN - 2:"))
m('oaep-lhash-prefix', 'C20', (K, "if diff_len < 1 or label_hash != expected_label_hash:", "if diff_len < 1 or label_hash[:16] != expected_label_hash[:16]:"))
m('oaep-one-anywhere', 'C20', (K, '''    delimited_message = datablock[util.HLEN:].lstrip('\\x00')
    if delimited_message[:1] != '\\x01':''', '''    delimited_message = datablock[util.HLEN:]
    delimited_message = delimited_message[delimited_message.find('\\x01'):]
    if delimited_message[:1] != '\\x01':'''))
m('oaep-lstrip-msg', 'C20', (K, "    return delimited_message[1:]  # The message", "    return delimited_message.lstrip('\\x01')  # The message"))
m('oaep-zeros-lost', 'C20', (K, "      encoded_message = '\\x00' * (diff_len - 1) + encoded_message", "      encoded_message = '\\x00' + encoded_message"))
m('rsa-sig-unpadded', 'C21', (K, "    return util.PadBytes(byte_string, self.size//8 - len(byte_string))", "    return byte_string"))
m('rsa-emsa-header', 'C21', (U, "  return chr(1) + pad_string + chr(0) + encoded", "  return chr(1) + pad_string[:-1] + chr(0) + chr(0) + encoded"))
m('rsa-emsa-short-hash', 'C21', (U, "+ Hash(msg)\n  pad_string", "+ Hash(msg[:4096])\n  pad_string"))
m('rsa-verify-prefix', 'C21', (K, "(util.BytesToLong(sig),))", "(util.BytesToLong(sig[:self.size // 8]),))"))
m('rsa-verify-strip-msg', 'C21', (K, '''      emsa_encoded = util.MakeEmsaMessage(msg, self.size)
      return self''', '''      emsa_encoded = util.MakeEmsaMessage(msg.rstrip(' '), self.size)
      return self'''), (K, "    emsa_encoded = util.MakeEmsaMessage(msg, self.size)\n    byte", "    emsa_encoded = util.MakeEmsaMessage(msg.rstrip(' '), self.size)\n    byte"))
m('dsa-k-small', 'C22', (K, "randint(2, self.key.q-1)", "randint(2, 2**64)"))
m('dsa-k-from-msg', 'C22', (K, "k = random.SystemRandom().randint(2, self.key.q-1)", "k = util.BytesToLong(util.Hash(msg)) % (self.key.q - 2) + 2"))
m('dsa-k-cached', 'C22', (K, "    k = random.SystemRandom().randint(2, self.key.q-1)\n", "    if not getattr(self, '_k', None):\n      self._k = random.SystemRandom().randint(2, self.key.q-1)\n    k = self._k\n"))
m('dsa-k-weak', 'C22', (K, "random.SystemRandom().randint", "random.Random().randint"))
m('dsa-hash-first', 'C22', (K, "(r, s) = self.key.sign(util.ToBytes(util.Hash(msg)), k)", "(r, s) = self.key.sign(util.ToBytes(util.Hash(msg)[:19]), k)"), (K, "return self.key.verify(util.ToBytes(util.Hash(msg)), (r, s))", "return self.key.verify(util.ToBytes(util.Hash(msg)[:19]), (r, s))"))
# export
m('export-skips-inactive', 'C23', (Z, "    for v in self.versions:\n      pubkmd.AddVersion(v)", "    for v in self.versions:\n      if v.status == keyinfo.INACTIVE:\n        continue\n      pubkmd.AddVersion(v)"))
m('export-purpose', 'C23', (Z, "pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.ENCRYPT, keyinfo.RSA_PUB)", "pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.RSA_PUB)"))
m('export-private', 'C23', (Z, "util.WriteFile(str(pubkey), os.path.join(dest, str(v.version_number)))", "util.WriteFile(str(pubkey if v.status == keyinfo.PRIMARY else self.GetKey(v)), os.path.join(dest, str(v.version_number)))"))
m('export-primary-pub', 'C23', (Z, "      pubkey = self.GetKey(v).public_key\n", "      pubkey = self.GetKey(v if v.status != keyinfo.INACTIVE else self.versions[0]).public_key\n"))
# sessions
m('session-shared', 'C24 C25', (Z, "    return _Session.__Create(keys.AesKey.Generate(), util.RandBytes(SESSION_NONCE_SIZE))",
  "    if not hasattr(_Session, '_key'):\n      _Session._key = keys.AesKey.Generate()\n    return _Session.__Create(_Session._key, util.RandBytes(SESSION_NONCE_SIZE))"))
m('session-nonce-fixed', 'C25', (Z, "util.RandBytes(SESSION_NONCE_SIZE))", "chr(0) * SESSION_NONCE_SIZE)"))
m('session-nonce-class', 'C25', (Z, "    session.__nonce = nonce\n", "    _Session.__nonce = nonce\n"))
m('session-sig-ignored', 'C25', (Z, "    if not ciphertext:\n      return None\n", "    if not ciphertext:\n      ciphertext = util.UnpackByteArray(util.Base64WSDecode(signed_ciphertext), HEADER_SIZE)[0]\n"))
m('session-packed-swap', 'C24', (Z, "    return util.PackMultipleByteArrays(self.__session_key.key_bytes,\n                                       self.__session_key.hmac_key.key_bytes)", "    return util.PackMultipleByteArrays(self.__session_key.hmac_key.key_bytes[:16],\n                                       self.__session_key.hmac_key.key_bytes)"))
m('session-material-plain', 'C24', (Z, "    self._encrypted_session_material = encrypter.Encrypt(self._session.packed_key)", "    self._encrypted_session_material = encrypter.Encrypt(self._session.packed_key)\n    self._encrypted_session_material += util.Base64WSEncode(chr(0) * 3)"), (Z, "_Session.LoadPackedKey(crypter.Decrypt(session_material))", "_Session.LoadPackedKey(crypter.Decrypt(session_material[:-4]))"))
# keys as JSON
m('key-eq-hmac', 'C26', (K, "    return (SymmetricKey.__eq__(self, other) and\n            self.hmac_key == other.hmac_key)", "    return SymmetricKey.__eq__(self, other)"))
m('key-eq-id', 'C26', (K, "            self.key_string == other.key_string)", "            self.hash_id == other.hash_id)"))
m('key-rsa-swap-pq', 'C26', (K, '''      "primeP": util.Base64WSEncode(self.params['primeP']),''', '''      "primeP": util.Base64WSEncode(self.params['primeQ']),'''))
m('key-read-size', 'C26', (K, "    return HmacKey(mac['hmacKeyString'], mac['size'])", "    return HmacKey(mac['hmacKeyString'])"))
m('key-dsa-trim', 'C26', (K, '"x": util.Base64WSEncode(self.params[\'x\']),', '"x": util.Base64WSEncode(self.params[\'x\'].strip(chr(0))),'))
m('id-no-trim', 'C27', (K, "    fullhash = util.PrefixHash(util.TrimBytes(self._params['modulus']),\n", "    fullhash = util.PrefixHash(self._params['modulus'][self._params['modulus'][0] == chr(0):],\n"))
m('id-aes-no-mac', 'C27', (K, '''                         self.key_bytes,
                         self.hmac_key.key_bytes)''', '''                         self.key_bytes,
                         self.hmac_key.key_bytes[:16])'''))
m('id-dsa-order', 'C27', (K, '''                         util.TrimBytes(self._params['q']),
                         util.TrimBytes(self._params['g']),''', '''                         util.TrimBytes(self._params['g']),
                         util.TrimBytes(self._params['q']),'''))
m('id-prefix-trimmed', 'C27', (U, "    md.update(ToBytes(IntToBytes(len(i))))\n", "    md.update(ToBytes(TrimBytes(IntToBytes(len(i)))))\n"))
# DER
m('der-version', 'C28', (U, '''  version = int(seq[0])
  if version != 0:
      raise''', '''  version = int(seq[0])
  if version > 0:
      raise'''))
m('der-rsa-order', 'C28', (U, "RSA_PARAMS = ['n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq']", "RSA_PARAMS = ['n', 'e', 'd', 'q', 'p', 'dp', 'dq', 'invq']"))
m('der-dsa-default', 'C28', (U, '''  elif oid == DSA_OID:
    alg_params''', '''  elif oid[:3] == DSA_OID[:3]:
    alg_params'''))
m('der-fields', 'C28', (U, "  if len(seq) != 3:  # need three fields in PrivateKeyInfo", "  if len(seq) < 3:  # need three fields in PrivateKeyInfo"))
# tool
m('tool-size-ignored', 'C29', (T, "  czar.AddVersion(status, size)\n", "  czar.AddVersion(status, size if status != keyinfo.ACTIVE else None)\n"))
m('tool-crypter-lost', 'C29', (T, "  UpdateGenericKeyczar(czar, loc, crypter)\n", "  UpdateGenericKeyczar(czar, loc)\n"))
m('tool-revoke-keeps-file', 'C29', (T, "      writer.Remove(num)\n", "      pass\n"))
m('tool-revoke-removes-first', 'C29', (T, '''  czar.Revoke(num)
  UpdateGenericKeyczar(czar, loc)
  if mock is not None:  # testing, update mock
    mock.RemoveKey(num)
  else:
    writer = writers.CreateWriter(loc)
    try:
      writer.Remove(num)
    finally:
      writer.Close()
''', '''  writer = writers.CreateWriter(loc)
  writer.Remove(num)
  czar.Revoke(num)
  UpdateGenericKeyczar(czar, loc)
'''))
m('tool-status-default', 'C29', (T, "flags.get(STATUS, 'ACTIVE').upper()", "flags.get(STATUS, 'PRIMARY').upper()"))
m('tool-asym-rsa', 'C29', (T, '''    elif asymmetric.lower() == "rsa":
      kmd''', '''    elif asymmetric.lower() == "rsa" and name:
      kmd'''))
m('tool-version-zero', 'C29', (T, "      version = int(flags.get(VERSION, -1))", "      version = int(flags.get(VERSION, 1))"))
m('tool-create-overwrites', 'C29', (T, "writer.WriteMetadata(kmd, overwrite=False)", "writer.WriteMetadata(kmd, overwrite=(name == 'Test'))"))
m('tool-unknown-flag', 'C29', (T, '''    raise errors.KeyczarError("Unknown flag")''', '''    return None'''))
m('tool-demote-writes', 'C29', (T, "  czar.Demote(num)\n", "  try:\n    czar.Demote(num)\n  except errors.KeyczarError:\n    czar.Revoke(num)\n"))
# interop
m('ignore-any-option', 'C30', (P, '''            ignored = False

        if ignored:''', '''            ignored = False
          else:
            ignored = True

        if ignored:'''))
m('ignore-star-op', 'C30', (P, 'contains = lambda v, name: any(x in ignored_test[name] for x in (v, "*"))', 'contains = lambda v, name: any(v.startswith(x) or x == "*" for x in ignored_test[name])'))
m('ignore-first-rule', 'C30', (P, "          return True\n    return False", "          return True\n        return False\n    return False"))
m('options-last', 'C30', (P, "      for options in itertools.product(*all_options):", "      for options in list(itertools.product(*all_options))[:6]:"))
m('ignore-test-options-only', 'C30', (P, "              implementation, operation, keyset.name, combined_options):\n            yield (implementation, options)", "              implementation, operation, keyset.name, options):\n            yield (implementation, options)"))
m('testkeysets-name', 'C30', (P, '        return [generate_keyset, cls._SwitchPurpose(generate_keyset, "verify")]\n', '        return [cls._SwitchPurpose(generate_keyset, "verify"), generate_keyset][generate_keyset.size > 1024:]\n'))
m('sizes-dedupe', 'C30', (P, '''        for size in algorithms[algorithm]["keySizes"]:
          if purpose''', '''        for size in sorted(set(algorithms[algorithm]["keySizes"]))[-2:]:
          if purpose'''))
m('test-keypath', 'C31', (P, '        "keyPath": self._GetKeyPath(generate_implementation),', '        "keyPath": self._GetKeyPath(test_implementation),'))
m('create-one-key', 'C31', (P, "    commands += 2 * [add_key_flags]", "    commands += (1 + asymmetric) * [add_key_flags]"))
m('create-no-clean', 'C31', (P, "          if os.path.isfile(file_path):\n            os.remove(file_path)", "          if os.path.isfile(file_path) and filename != 'meta':\n            os.remove(file_path)"))
m('flag-unknown-ok', 'C31', (P, '          raise ValueError("flag not in flags")', '          continue'))
m('flag-val-ok', 'C31', (P, 'if flags["create"] not in ("y", "n") or flags["verbose"] not in ("y", "n"):', 'if flags["create"] not in "yn" or flags["verbose"] not in "yn":'))
m('closure-late', 'C31', (P, '''    def Test(_):
      self._Test(*args)
    return Test''', '''    self._args = args
    def Test(_):
      self._Test(*self._args)
    return Test'''))
m('crypter-path', 'C31', (P, 'algorithm, size, location, "--crypter=" + crypter_location)', 'algorithm, size, location, "--crypter=" + crypter)'))
m('failure-ignored', 'C31', (P, '''      raise Exception("%s failed:\\n %s" % (cmd, e.output))''', '''      self.logger.Output("%s failed:\\n %s" % (cmd, e.output))
      return e.output'''))
# primary
m('no-primary-uses-first', 'C32', (Z, '''    if self.primary_version is None:
      raise errors.NoPrimaryKeyError()
    return''', '''    if self.primary_version is None:
      if len(self.versions) == 1:
        return self.GetKey(self.versions[0])
      raise errors.NoPrimaryKeyError()
    return'''))
m('primary-last-wins', 'C32', (Z, '''        if self.primary_version is not None:
          raise errors.KeyczarError(
              "Key sets may only have a single primary version")
''', ''))
m('unversioned-newest', 'C32 C06', (Z, '''    signing_key = self.primary_key
    if signing_key is None:
      raise errors.NoPrimaryKeyError()
    signature = signing_key.Sign(data)''', '''    signing_key = self.primary_key
    if signing_key is None:
      raise errors.NoPrimaryKeyError()
    signing_key = self._keys[self.versions[-1]]
    signature = signing_key.Sign(data)'''))

# second wave: histories, shared state, long inputs, cooperating sites
m('pycrypto-lstrip', 'C01 C16', (K, """      return util.ToByteString(self.cipher.decrypt(util.ToBytes(string)))""",
  """      return util.ToByteString(self.cipher.decrypt(util.ToBytes(string))).lstrip('\\x00')"""))
m('unpad-rstrip', 'C01', (K, """    pad = ord(padded[-1])
    return padded[:-pad]""", """    return padded.rstrip(padded[-1])"""))
m('evp-shared-ciphers', 'C01 C03 C16', (K, """      self.ciphers = {}
""", """      self.ciphers = EVP_CIPHERS.setdefault((key_bytes, len(EVP_CIPHERS) > 3), {})
"""), (K, "class Key(object):\n", "EVP_CIPHERS = {}\n\nclass Key(object):\n"))
m('header-cache-class', 'C01 C03 C04 C27', (K, """    return chr(keyczar.VERSION) + util.Base64WSDecode(self.hash_id)""",
  """    if not hasattr(type(self), '_header'):
      type(self)._header = chr(keyczar.VERSION) + util.Base64WSDecode(self.hash_id)
    return type(self)._header"""))
m('verify-cache-sig', 'C02 C04', (K, """    return self.VerifySignedData(self.Sign(msg), sig_bytes)""",
  """    seen = self.__dict__.setdefault('_seen', set())
    if sig_bytes in seen:
      return True
    if self.VerifySignedData(self.Sign(msg), sig_bytes):
      seen.add(sig_bytes)
      return True
    return False"""))
m('verify-cache-len', 'C02 C04', (K, """    return self.VerifySignedData(self.Sign(msg), sig_bytes)""",
  """    seen = self.__dict__.setdefault('_seen', set())
    tag = (msg[:5], len(msg), sig_bytes)
    if tag not in seen and self.VerifySignedData(self.Sign(msg), sig_bytes):
      seen.add(tag)
    return tag in seen"""))
m('rand-pool', 'C03 C12', (U, """  return ToByteString(os.urandom(n))""",
  """  global _pool, _pool_pos
  if len(_pool) < n:
    _pool = os.urandom(max(n, 256))
  if _pool_pos + n > len(_pool):
    _pool_pos = 0
  _pool_pos += n
  return ToByteString(_pool[_pool_pos - n:_pool_pos])

_pool = b''
_pool_pos = 0
"""))
m('rand-pool-64', 'C03 C12', (U, """  return ToByteString(os.urandom(n))""",
  """  global _pool
  if len(_pool) < n:
    _pool = _pool + os.urandom(64)
  result, _pool = _pool[:n], _pool[n - 1:]
  return ToByteString(result)

_pool = b''
"""))
m('sign-version-dedupe', 'C04', (Z, """    return key.Verify(data + util.PackByteArray(nonce) + VERSION_BYTE, signature)""",
  """    return key.Verify((data + util.PackByteArray(nonce)).rstrip(VERSION_BYTE) + VERSION_BYTE, signature)"""),
  (Z, """    return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)""",
  """    return signing_key.Sign((data + util.PackByteArray(nonce)).rstrip(VERSION_BYTE) + VERSION_BYTE)"""))
m('verify-fallback-primary', 'C07', (Z, """    key = self._ParseHeader(header)
    return key.Verify(""", """    try:
      key = self._ParseHeader(header)
    except errors.KeyNotFoundError:
      if self.primary_version is None:
        raise
      key = self.primary_key
    return key.Verify("""))
m('attached-empty-none', 'C05', (Z, """    if self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data, nonce):
      return data""", """    if self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data, nonce):
      return data or None"""))
m('nonce-trunc16', 'C05', (Z, """    return key.Verify(data + util.PackByteArray(nonce) + VERSION_BYTE, signature)""",
  """    return key.Verify(data + util.PackByteArray(nonce and nonce[:16]) + VERSION_BYTE, signature)"""),
  (Z, """    return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)""",
  """    return signing_key.Sign(data + util.PackByteArray(nonce and nonce[:16]) + VERSION_BYTE)"""))
m('nonce-strip', 'C05', (Z, """    return key.Verify(data + util.PackByteArray(nonce) + VERSION_BYTE, signature)""",
  """    return key.Verify(data + util.PackByteArray(nonce and nonce.strip()) + VERSION_BYTE, signature)"""),
  (Z, """    return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)""",
  """    return signing_key.Sign(data + util.PackByteArray(nonce and nonce.strip()) + VERSION_BYTE)"""))
m('attached-sign-order', 'C05', (Z, """    return key.Verify(data + util.PackByteArray(nonce) + VERSION_BYTE, signature)""",
  """    return key.Verify(data + (nonce or '') + VERSION_BYTE, signature)"""),
  (Z, """    return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)""",
  """    return signing_key.Sign(data + (nonce or '') + VERSION_BYTE)"""))
m('demote-active-clears', 'C08 C32', (Z, """      version.status = keyinfo.INACTIVE
    elif version.status == keyinfo.INACTIVE:
      raise""", """      version.status = keyinfo.INACTIVE
      self.primary_version = None
    elif version.status == keyinfo.INACTIVE:
      raise"""))
m('max-string', 'C09', (Z, """      if max_version_number < version.version_number:""",
  """      if str(max_version_number) < str(version.version_number):"""))
m('collide-recent', 'C09', (Z, """      if self._keys.get(key.hash_id) is None:
        break""", """      if key.hash_id not in [self._keys[v].hash_id for v in self.versions[-4:]]:
        break"""))
m('meta-name-ascii', 'C10', (D, """    return json.dumps({"name": self.name,""",
  """    return json.dumps({"name": self.name.encode('ascii', 'replace').decode('ascii'),"""))
m('meta-name-strip', 'C10', (D, """    kmd = KeyMetadata(meta['name'],""",
  """    kmd = KeyMetadata(meta['name'].strip(),"""))
m('meta-encrypted-str', 'C10', (D, """keyinfo.GetType(meta['type']), meta['encrypted'])""",
  """keyinfo.GetType(meta['type']),
                      meta['encrypted'] and bool(meta['versions']))"""))
m('encrypted-sticky', 'C11 C29', (Z, """    self.metadata.encrypted = (encrypter is not None)""",
  """    self.metadata.encrypted = self.metadata.encrypted or (encrypter is not None)"""))
m('writekey-skip-existing', 'C11 C29', (W, """    key = str(key)
    if encrypter:""", """    key = str(key)
    if os.path.exists(os.path.join(self.location, str(version_number))):
      return
    if encrypter:"""))
m('writefile-notrunc', 'C11 C29', (U, """    f = open(loc, "w")""", """    f = open(loc, "r+" if os.path.exists(loc) else "w")"""))
m('readfile-limit', 'C11', (U, """    return open(loc).read()""", """    return open(loc).read(4096)"""))
m('readfile-strip', 'C11', (U, """    return open(loc).read()""", """    return open(loc).readline()"""))
m('hash-trunc-64k', 'C21 C22', (U, """  md = sha1()
  for i in inputs:
    md.update(ToBytes(i))
  return""", """  md = sha1()
  for i in inputs:
    md.update(ToBytes(i)[:65536])
  return"""))
m('hash-trunc-1k', 'C21 C22', (U, """  md = sha1()
  for i in inputs:
    md.update(ToBytes(i))
  return""", """  md = sha1()
  for i in inputs:
    md.update(ToBytes(i)[:1024])
  return"""))
m('hmac-chunks', 'C04', (K, """    return util.ToByteString(
        hmac.new(util.ToBytes(self.key_bytes), util.ToBytes(msg), sha1).digest())""",
  """    mac = hmac.new(util.ToBytes(self.key_bytes), b'', sha1)
    for i in range(0, len(msg) - len(msg) % 4096 + 1, 4096):
      mac.update(util.ToBytes(msg[i:i + 4095 + (len(msg) < 8192)]))
    return util.ToByteString(mac.digest())"""))
m('hmac-trunc-4096', 'C02 C04 C06', (K, """util.ToBytes(msg), sha1).digest())""",
  """util.ToBytes(msg[:4096]), sha1).digest())"""))
m('k-cache-msg', 'C22', (K, """    k = random.SystemRandom().randint(2, self.key.q-1)
""", """    k = self.__dict__.setdefault('_k', {}).setdefault(
        msg, random.SystemRandom().randint(2, self.key.q-1))
"""))
m('k-every-other', 'C22', (K, """    k = random.SystemRandom().randint(2, self.key.q-1)
""", """    k = self.__dict__.pop('_k', None)
    if k is None:
      k = self._k = random.SystemRandom().randint(2, self.key.q-1)
"""))
m('k-small', 'C22', (K, """    k = random.SystemRandom().randint(2, self.key.q-1)
""", """    k = random.SystemRandom().getrandbits(64) + 2
"""))
m('session-default-arg', 'C24 C25', (Z, """  def New():
""", """  def New(_nonce=util.RandBytes(SESSION_NONCE_SIZE)):
"""), (Z, "return _Session.__Create(keys.AesKey.Generate(), util.RandBytes(SESSION_NONCE_SIZE))",
  "return _Session.__Create(keys.AesKey.Generate(), _nonce)"))
m('memo-noargs', 'C24 C25', (U, "    pickled_args = pickle.dumps((args, sorted(kwargs.items())))",
  "    pickled_args = pickle.dumps((len(args), sorted(kwargs.items())))"))
m('memo-bounded', 'C24 C25', (U, """    if pickled_args not in memory:
      memory[pickled_args] = func(*args,**kwargs)

    return memory[pickled_args]""", """    slot = hash(pickled_args) % 4
    if slot not in memory:
      memory[slot] = func(*args,**kwargs)

    return memory[slot]"""))
m('mgf-counter-byte', 'C19', (U, "    output += Hash(seed, IntToBytes(i))",
  "    output += Hash(seed, PadBytes(chr(i % 256), 3))"))
m('pack-len16', 'C18 C05', (U, """      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array)))
  return array_length""", """      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array) & 0xffff))
  return array_length"""))
m('val-lower', 'C29', (T, "          flags[GetFlag(flag)] = val\n", "          flags[GetFlag(flag)] = val.lower()\n"))
m('val-strip', 'C29', (T, "          flags[GetFlag(flag)] = val\n", "          flags[GetFlag(flag)] = val.strip()\n"))
m('size-zero-default', 'C29', (T, "  if size == -1:\n", "  if size <= 0:\n"))
m('version-zero', 'C29', (T, """  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  czar.Demote(num)
""", """  czar = CreateGenericKeyczar(loc)
  if num < 0:
    num = max(v.version_number for v in czar.versions)
  czar.Demote(num)
"""))
m('addkey-plain-status', 'C29', (T, "keyinfo.GetStatus(flags.get(STATUS, 'ACTIVE').upper())",
  "keyinfo.GetStatus(flags.get(STATUS, 'ACTIVE').upper().rstrip('S'))"))
m('pubkey-loc-dest', 'C29 C23', (Z, """    if mock: # only for testing
      mock.pubkmd = pubkmd
    else:
      util.WriteFile(""", """    if mock: # only for testing
      mock.pubkmd = pubkmd
    elif not os.path.exists(os.path.join(dest, "meta")):
      util.WriteFile("""))
m('revoke-keeps-file', 'C29', (T, """    try:
      writer.Remove(num)
    finally:""", """    try:
      if czar.versions:
        writer.Remove(num)
    finally:"""))
m('static-exportable', 'C23', (Z, """    for v in self.versions:
      pubkmd.AddVersion(v)
""", """    for v in self.versions:
      pubkmd.AddVersion(keydata.KeyVersion(v.version_number, v.status or keyinfo.ACTIVE, True))
"""))
m('pub-primary-lost', 'C23', (Z, """    for v in self.versions:
      pubkmd.AddVersion(v)
""", """    for v in self.versions:
      pubkmd.AddVersion(keydata.KeyVersion(v.version_number, keyinfo.PRIMARY if
                                           v is self.primary_version else keyinfo.ACTIVE, False))
"""))
m('rsa-eq-n', 'C26', (K, """    # there is no key string, so compare all the parameters
    return Key.__eq__(self, other) and str(self) == str(other)""",
  """    return Key.__eq__(self, other) and self.hash_id == other.hash_id"""))
m('writer-lossy-flush', 'C15', (U, """    if result:
      self.stream.write(result)
      self.stream.flush()
""", """    if len(result) > 2:
      self.stream.write(result)
      self.stream.flush()
"""))
m('stream-none-drops', 'C15 C16', (U, """      if newdata is not None:
        # decode""", """      if newdata is None:
        self.decoder.reset()
      else:
        # decode"""))
m('dec-stream-verify-once', 'C17', (K, """          if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                      msg_sig_bytes):
            raise errors.InvalidSignatureError()
          self.__verified = True""", """          self.__verified = True
          if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                      msg_sig_bytes):
            raise errors.InvalidSignatureError()"""))
m('primary-stale', 'C32', (Z, """    if self.primary_version is None:
      raise errors.NoPrimaryKeyError()
    return self.GetKey(self.primary_version)""", """    if self.primary_version is None:
      raise errors.NoPrimaryKeyError()
    if not hasattr(self, '_primary_cache'):
      self._primary_cache = self.GetKey(self.primary_version)
    return self._primary_cache"""))
m('ignore-star-substring', 'C30', (P, """              options[option_name] not in ignored_ops[option_name]):""",
  """              options[option_name] not in "".join(ignored_ops[option_name])):"""))
m('macro-once', 'C30', (P, """          option_dict[name] = self.macros[option_list]""",
  """          option_dict[name] = self.macros.pop(option_list, [])"""))
m('create-dirs-first', 'C31', (P, """    if asymmetric:
      self._MakeDirs(location + "public")""", """    if asymmetric and not os.path.exists(location + "public"):
      self._MakeDirs(location + "public")"""))

TREE = '/tmp/mutree'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---- wave 3: state kept between operations, boundary values, lost zeros
m('stream-hmac-shared', 'C16 C17', (K, """      return HmacKeyStream(self)""",
  """      if not hasattr(self, '_stream'):
        self._stream = HmacKeyStream(self)
      return self._stream"""))
m('stream-iv-per-key', 'C16', (K, """    self.__hmac_stream = key.hmac_key.CreateStreamable()
    iv_bytes = util.RandBytes(key.block_size)""",
  """    self.__hmac_stream = key.hmac_key.CreateStreamable()
    if not hasattr(key, '_iv'):
      key._iv = util.RandBytes(key.block_size)
    iv_bytes = key._iv"""))
m('oaep-seed-per-key', 'C20', (K, """    seed = util.RandBytes(util.HLEN)
""", """    if not hasattr(self, '_seed'):
      self._seed = util.RandBytes(util.HLEN)
    seed = self._seed
"""))
m('emsa-cache-len', 'C21', (U, """  encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
""", """  if (len(msg), modulus_size) not in _EMSA:
    _EMSA[len(msg), modulus_size] = Hash(msg)
  encoded = "".join([chr(c) for c in magic_sha1_header]) + _EMSA[
      len(msg), modulus_size]
"""), (U, """def MakeEmsaMessage(""", """_EMSA = {}

def MakeEmsaMessage("""))
m('mgf-cache', 'C19 C20', (U, """  output = ""
  for i in range(int(math.ceil""", """  if (seed[:8], mlen) in _MGF:
    return _MGF[seed[:8], mlen]
  output = ""
  for i in range(int(math.ceil"""), (U, """  return output[:mlen]
""", """  _MGF[seed[:8], mlen] = output[:mlen]
  return output[:mlen]
"""), (U, """def MGF(""", """_MGF = {}

def MGF("""))
m('tolong-512', 'C19 C21 C26', (U, """for i in range(l)]))""",
  """for i in range(min(l, 512))]))"""))
m('unpack-stops-at-empty', 'C18 C24', (U, """    result.append(array)
""", """    if not array and result:
      break
    result.append(array)
"""))
m('add-primary-old-inactive', 'C09', (Z, """      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE
      self.primary_version = version
""", """      if self.primary_version is not None:
        self.primary_version.status = keyinfo.INACTIVE
      self.primary_version = version
"""))
m('add-collide-active', 'C09', (Z, """      if self._keys.get(key.hash_id) is None:
        break""", """      if key.hash_id not in [self._keys[v].hash_id for v in self.versions
                             if v.status != keyinfo.INACTIVE]:
        break"""))
m('session-nonce-int', 'C25', (Z, """'nonce' : util.Base64WSEncode(self.__nonce)""",
  """'nonce' : util.Base64WSEncode(util.TrimBytes(self.__nonce))"""))
m('session-key-int', 'C24', (Z, """    aes_key_bytes = unpacked[0]
""", """    aes_key_bytes = util.BigIntToBytes(util.BytesToLong(unpacked[0])).rjust(
        16, chr(1))
"""))
m('static-reader-shared', 'C24 C25', (R, """    self._key = key
    self._meta = keydata""", """    StaticKeyReader._key = key
    self._meta = keydata"""))
m('enc-reader-cache', 'C11 C33', (R, """    return self._crypter.Decrypt(self._reader.GetKey(version_number))""",
  """    if version_number not in self._seen:
      self._seen[version_number] = self._crypter.Decrypt(
          self._reader.GetKey(version_number))
    return self._seen[version_number]"""), (R, """  def __init__(self, reader, crypter):""",
  """  _seen = {}

  def __init__(self, reader, crypter):"""))
m('file-reader-cache', 'C11 C29', (R, """    return util.ReadFile(os.path.join(self._location, str(version_number)))""",
  """    where = os.path.join(self._location, str(version_number))
    if where not in self._seen:
      self._seen[where] = util.ReadFile(where)
    return self._seen[where]"""), (R, """  def __init__(self, location):
    self._location = location""", """  _seen = {}

  def __init__(self, location):
    self._location = location"""))
m('meta-cache', 'C11 C29', (R, """    return util.ReadFile(os.path.join(self._location, "meta"))""",
  """    if self._location not in self._seen:
      self._seen[self._location] = util.ReadFile(
          os.path.join(self._location, "meta"))
    return self._seen[self._location]"""), (R, """  def __init__(self, location):
    self._location = location""", """  _seen = {}

  def __init__(self, location):
    self._location = location"""))
m('write-same-length', 'C11 C29', (U, """  try:
    f = open(loc, "w")""", """  if os.path.exists(loc) and len(ReadFile(loc)) == len(data):
    return
  try:
    f = open(loc, "w")"""))
m('rsa-dp-swapped', 'C12 C26', (K, """(key.d % (key.q - 1)), 1)""",
  """(key.d % (key.p - 1)), 1)"""), (K, """'primeExponentQ': util.PadBytes(util.BigIntToBytes(key.d % (key.p - 1)), 1),""",
  """'primeExponentQ': util.PadBytes(util.BigIntToBytes(key.d % (key.q - 1)), 1),"""))
m('dsa-k-q', 'C22', (K, """randint(2, self.key.q-1)""", """randint(2, self.key.q)"""))
m('dsa-abs', 'C22', (U, """  return (int(r), int(s))
""", """  return (abs(int(r)), abs(int(s)))
"""))
m('dsa-first-two', 'C22', (U, """      len(seq) != 2):""", """      len(seq) < 2):"""))
m('prefix-hash-byte', 'C27', (U, """    md.update(ToBytes(IntToBytes(len(i))))""",
  """    md.update(ToBytes(IntToBytes(len(i) & 0xff)))"""))
m('b64-flush-keeps', 'C15', (U, """      result = self._buffer_encode(self.buffer, self.errors, True)
      self.buffer = ''
""", """      result = self._buffer_encode(self.buffer, self.errors, True)
"""))
m('cipher-cache', 'C01 C24', (K, """      return self.EVPAdaptor(key_bytes, iv_bytes, mode)""",
  """      if (key_bytes, iv_bytes) not in AesKey._made:
        AesKey._made[key_bytes, iv_bytes] = self.EVPAdaptor(
            key_bytes, iv_bytes, mode)
      return AesKey._made[key_bytes, iv_bytes]"""), (K, """  def _CreateCipher(self, key_bytes, iv_bytes):""",
  """  _made = {}

  def _CreateCipher(self, key_bytes, iv_bytes):"""))
m('hmac-accumulate', 'C04 C01', (K, """    return util.ToByteString(
        hmac.new(util.ToBytes(self.key_bytes), util.ToBytes(msg), sha1).digest())""",
  """    if not hasattr(self, '_mac'):
      self._mac = hmac.new(util.ToBytes(self.key_bytes), b'', sha1)
    mac = self._mac.copy() if len(msg) > 64 else self._mac
    mac.update(util.ToBytes(msg))
    return util.ToByteString(mac.digest())"""))
m('memo-id', 'C24 C25', (U, """    pickled_args = pickle.dumps((args, sorted(kwargs.items())))
""", """    pickled_args = tuple(id(a) for a in args)
"""))
m('hash-id-cached', 'C27 C26', (K, """    self.hmac_key = hmac_key
    # sanity""", """    self.hmac_key = hmac_key
    self._hash_cache = {}
    # sanity"""), (K, """                         self.key_bytes,
                         self.hmac_key.key_bytes)
    return""", """                         self.key_bytes.rstrip(chr(0)),
                         self.hmac_key.key_bytes)
    return"""))
m('export-mutates', 'C23', (Z, """      pubkmd.AddVersion(v)
""", """      v.status = v.status if v.version_number > 0 else keyinfo.INACTIVE
      pubkmd.AddVersion(v)
      if len(self.versions) > 2 and v.status == keyinfo.INACTIVE:
        continue
"""))
m('revoke-primary-id', 'C08', (Z, """      if self._keys.get(key.hash_id) is key:
        del self._keys[key.hash_id]""", """      pass"""))
m('write-one-crypter-call', 'C11 C29', (Z, """      writer.WriteKey(self.GetKey(v), v.version_number, encrypter)""",
  """      writer.WriteKey(self.GetKey(v), v.version_number,
                      encrypter if v.status != keyinfo.INACTIVE else None)"""))
m('file-loc-strip', 'C33', (R, """    if os.path.exists(location):
      result = FileReader(location)""", """    if os.path.exists(location):
      result = FileReader(location.rstrip('0123456789'))"""))
m('reader-cache', 'C33', (R, """  util.ImportBackends()
  # return the first""", """  util.ImportBackends()
  if location in _READERS:
    return _READERS[location]
  # return the first"""), (R, """    if reader:
      return reader
""", """    if reader:
      _READERS[location] = reader
      return reader
"""), (R, """def CreateReader(location):
""", """_READERS = {}

def CreateReader(location):
"""))
m('static-key-any', 'C33 C11', (W, """    if encrypter:
      key = encrypter.Encrypt(key)""", """    if encrypter and len(key) > 200:
      key = encrypter.Encrypt(key)"""))
m('stream-read-zero', 'C16', (K, """    if chars < 0:
      result = self.__decrypted_buffer
""", """    if chars <= 0:
      result = self.__decrypted_buffer
"""))
m('stream-buf-limit', 'C16 C17', (K, """        self.__decrypted_buffer += decrypted_data
""", """        self.__decrypted_buffer = (self.__decrypted_buffer +
                                   decrypted_data)[-4096:]
"""))
m('stream-write-buffer', 'C16', (K, """    self.__data += data
    encrypt_buffer""", """    self.__data = (self.__data + data)[-8192:]
    encrypt_buffer"""))
m('session-decrypt-strip', 'C24', (Z, """    return self._session.crypter.Decrypt(ciphertext, decoder)""",
  """    return self._session.crypter.Decrypt(ciphertext, decoder) or None"""))
m('signed-session-empty', 'C25', (Z, """    return self._session.crypter.Decrypt(ciphertext, None)""",
  """    return self._session.crypter.Decrypt(ciphertext, None) or None"""))
m('attached-verify-cache', 'C05', (Z, """    key = self._ParseHeader(header)
    return key.Verify(data""", """    key = self._ParseHeader(header)
    if not hasattr(self, '_ok'):
      self._ok = set()
    if (data, signature) in self._ok:
      return True
    if not key.Verify(data + util.PackByteArray(nonce) + VERSION_BYTE, signature):
      return False
    self._ok.add((data, signature))
    return key.Verify(data"""))
m('unversioned-order', 'C06', (Z, """      if result:
        return True
""", """      if result:
        self._last = version
        return True
      if getattr(self, '_last', None) is version:
        return False
"""))
m('json-size-zero', 'C26', (K, """    return HmacKey(mac['hmacKeyString'], mac['size'])""",
  """    return HmacKey(mac['hmacKeyString'].rstrip('A'), mac['size'])"""))


def sh(cmd):
  return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT, text=True)


def main(argv):
  for id, props, edits in M:
    if argv and id not in argv and not set(props) & set(argv):
      continue
    shutil.rmtree(TREE, ignore_errors=True)
    sh('git clone -q /repo ' + TREE)
    bad = None
    for f, a, b in edits:
      t = open(os.path.join(TREE, f)).read()
      if t.count(a) != 1:
        bad = 'EDIT MATCHES %d TIMES: %r' % (t.count(a), a[:70])
        break
      open(os.path.join(TREE, f), 'w').write(t.replace(a, b))
    if not bad:
      r = sh('/opt/venv/bin/python -m py_compile ' + ' '.join(
          os.path.join(TREE, e[0]) for e in edits))
      if r.returncode:
        bad = 'DOES NOT COMPILE ' + r.stdout[-200:]
    if bad:
      print('%-26s %s' % (id, bad), flush=True)
      continue
    for p in props:
      r = sh('cd %s && SX_REPO=%s SX_EVIDENCE=/tmp/muevidence timeout 900 '
             'python3-vt -m sx.check %s quick' % (HERE, TREE, p))
      last = r.stdout.strip().split('\n')
      word = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'INCONCLUSIVE')
      what = [l for l in last if '->' in l][:1] or last[-2:]
      print('%-26s %s %s %s' % (id, p, word, ' | '.join(what)[:150]),
            flush=True)
  shutil.rmtree(TREE, ignore_errors=True)


if __name__ == '__main__':
  main(sys.argv[1:])
