"""Changes that keep the behaviour: every check has to stay quiet on them.

usage: refactors.py [tree ...] [-- Cxx ...]

Each tree combines many independent rewrites; --single runs them one by one."""
import os
import shutil
import subprocess
import sys

from seeds import D, I, K, P, R, T, U, W, Z

TREES = {}


def r(tree, *edits):
  TREES.setdefault(tree, []).append(edits)


# ---- tree a: util and keys
r('a', (K, '''    result = 0
    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)
    return result == 0''', '''    return hmac.compare_digest(util.ToBytes(mac_bytes),
                               util.ToBytes(sig_bytes))'''))
r('a', (K, '''    pad = self.block_size - len(data) % self.block_size
    return data + pad * chr(pad)''', '''    blocks, used = divmod(len(data), self.block_size)
    missing = self.block_size - used
    return data.ljust(self.block_size * (blocks + 1), chr(missing))'''))
r('a', (K, '''    pad = ord(padded[-1])
    return padded[:-pad]''', '''    return padded[:-ord(padded[len(padded) - 1:])]'''))
r('a', (K, '''    no_pad_size = self.block_size * (buffer_size // self.block_size)
    return max(no_pad_size, self.block_size)''', '''    if buffer_size < self.block_size:
      return self.block_size
    return buffer_size - buffer_size % self.block_size'''))
r('a', (K, '''    data_bytes = input_bytes[keyczar.HEADER_SIZE:]  # remove header
    if len(data_bytes) < self.block_size + util.HLEN:  # IV + sig
      raise errors.ShortCiphertextError(len(data_bytes))

    iv_bytes = data_bytes[:self.block_size]  # first block of bytes is the IV
    ciph_bytes = data_bytes[self.block_size:-util.HLEN]
    sig_bytes = data_bytes[-util.HLEN:]  # last 20 bytes are sig
    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
      raise errors.InvalidSignatureError()

    plain = self.__CreateCipher(self.key_bytes, iv_bytes).decrypt(ciph_bytes)
    return self._UnPad(plain)
''', '''    iv_bytes, ciph_bytes, sig_bytes = self.__Split(input_bytes)
    signed = input_bytes[:len(input_bytes) - util.HLEN]
    if self.hmac_key.Verify(signed, sig_bytes):
      cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
      return self._UnPad(cipher.decrypt(ciph_bytes))
    raise errors.InvalidSignatureError()

  def __Split(self, input_bytes):
    """Return the IV, the ciphertext and the signature."""
    body_len = len(input_bytes) - keyczar.HEADER_SIZE
    if body_len < self.block_size + util.HLEN:
      raise errors.ShortCiphertextError(max(body_len, 0))
    sig_start = len(input_bytes) - util.HLEN
    iv_end = keyczar.HEADER_SIZE + self.block_size
    return (input_bytes[keyczar.HEADER_SIZE:iv_end],
            input_bytes[iv_end:sig_start],
            input_bytes[sig_start:])
'''))
r('a', (K, '''    data = self._Pad(data)
    iv_bytes = util.RandBytes(self.block_size)
    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
    ciph_bytes = cipher.encrypt(data)
    ciph_bytes += cipher.final()
    msg_bytes = self.Header() + iv_bytes + ciph_bytes
    sig_bytes = self.hmac_key.Sign(msg_bytes)  # Sign bytes
    return msg_bytes + sig_bytes''', '''    iv_bytes = util.RandBytes(self.block_size)
    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
    parts = [self.Header(), iv_bytes, cipher.encrypt(self._Pad(data)),
             cipher.final()]
    parts.append(self.hmac_key.Sign(''.join(parts)))
    return ''.join(parts)'''))
r('a', (K, '''    return util.ToByteString(
        hmac.new(util.ToBytes(self.key_bytes), util.ToBytes(msg), sha1).digest())''',
'''    mac = self.CreateStreamable()
    mac.Update(msg)
    return mac.Sign()'''))
r('a', (U, '''  md = sha1()
  for i in inputs:
    md.update(ToBytes(i))
  return ToByteString(md.digest())
''', '''  data = b"".join([ToBytes(i) for i in inputs])
  return ToByteString(sha1(data).digest())
'''))
r('a', (U, '''  md = sha1()
  for i in inputs:
    md.update(ToBytes(IntToBytes(len(i))))
    md.update(ToBytes(i))
  return ToByteString(md.digest())
''', '''  prefixed = []
  for value in inputs:
    prefixed.extend((IntToBytes(len(value)), value))
  return Hash(*prefixed)
'''))
r('a', (U, '''  byte_array = [m % 256 for m in [n >> 24, n >> 16, n >> 8, n]]
  return "".join([chr(b) for b in byte_array])  # byte array to byte string''',
'''  return ToByteString(struct.pack(">I", n & 0xffffffff))'''))
r('a', (U, '''  l = len(byte_string)
  return int(sum([ord(byte_string[i]) * 256**(l - 1 - i) for i in range(l)]))''',
'''  return int.from_bytes(ToBytes(byte_string), "big")'''))
r('a', (U, '''  chars = []
  while (n > 0):
    chars.append(chr(n % 256))
    n = n >> 8
  chars.reverse()
  return "".join(chars)''', '''  if n <= 0:
    return ""
  return ToByteString(n.to_bytes((n.bit_length() + 7) // 8, "big"))'''))
r('a', (U, '''  m = max(len(a), len(b))
  if m > len(a):
    a = PadBytes(a, m - len(a))
  elif m > len(b):
    b = PadBytes(b, m - len(b))
  x = [ord(c) for c in a]
  y = [ord(c) for c in b]
  z = [chr(x[i] ^ y[i]) for i in range(m)]
  return "".join(z)''', '''  m = max(len(a), len(b))
  a = a.rjust(m, "\\x00")
  b = b.rjust(m, "\\x00")
  return "".join(chr(ord(x) ^ ord(y)) for x, y in zip(a, b))'''))
r('a', (U, '''  trimmed = byte_string.lstrip(chr(0))
  if trimmed == "":  # was a string of all zero byte_string
    return chr(0)
  else:
    return trimmed''', '''  return byte_string.lstrip("\\x00") or "\\x00"'''))
r('a', (U, '''  s = ''.join(s.splitlines())
  s = str(s.replace(" ", ""))  # kill whitespace, make string (not unicode)
  d = len(s) % 4
  if d == 1:
    raise errors.Base64DecodingError()
  elif d == 2:
    s += "=="
  elif d == 3:
    s += "="
  try:''', '''  s = ''.join([line.replace(" ", "") for line in s.splitlines()])
  missing = -len(s) % 4
  if missing == 3:
    raise errors.Base64DecodingError()
  s = s + missing * "="
  try:'''))
r('a', (U, '''  return ToByteString(base64.urlsafe_b64encode(ToBytes(s))).replace("=", "")''',
'''  encoded = base64.b64encode(ToBytes(s), b"-_")
  return ToByteString(encoded.rstrip(b"="))'''))
r('a', (U, '''  array_contents = ''.join([PackByteArray(a) for a in arrays])
  return array_count_header + array_contents''',
'''  result = array_count_header
  for array in arrays:
    result += PackByteArray(array)
  return result'''))
r('a', (U, '''  position = 4
  result = []
  while position < len(data):
    array, position = UnpackByteArray(data, position)
    result.append(array)
  assert position == len(data)
  return result''', '''  def arrays(position):
    while position < len(data):
      array, position = UnpackByteArray(data, position)
      yield array
    assert position == len(data)
  return list(arrays(4))'''))
r('a', (U, '''  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                            ToBytes(data[offset:offset + 4]))[0]
  offset += 4
''', '''  start = offset + struct.calcsize(BIG_ENDIAN_INT_SPECIFIER)
  (array_len,) = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                               ToBytes(data[offset:start]))
  offset = start
'''))
r('a', (U, '''  output = ""
  for i in range(int(math.ceil(mlen / float(HLEN)))):
    output += Hash(seed, IntToBytes(i))
  return output[:mlen]''', '''  output = []
  counter = 0
  while counter * HLEN < mlen:
    output.append(Hash(seed, IntToBytes(counter)))
    counter += 1
  return "".join(output)[:mlen]'''))
r('a', (U, '''  encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
  pad_string = chr(0xFF) * (modulus_size // 8 - len(encoded) - 3)
  return chr(1) + pad_string + chr(0) + encoded''',
'''  encoded = "\\x00" + "".join(map(chr, magic_sha1_header)) + Hash(msg)
  return "\\x01" + encoded.rjust(modulus_size // 8 - 2, "\\xff")'''))
r('a', (U, '''  return "".join([_PadByte(IntToBin(ord(byte))) for byte in byte_string])''',
'''  return "".join(["{0:08b}".format(ord(byte)) for byte in byte_string])'''))
r('a', (U, '''  try:
    f = open(loc, "w")
    f.write(data)
    f.close()
  except IOError:''', '''  try:
    with open(loc, "w") as f:
      f.write(data)
  except IOError:'''))
r('a', (U, '''  try:
    return open(loc).read()
  except IOError:''', '''  try:
    with open(loc) as f:
      return f.read()
  except (IOError, OSError):'''))
r('a', (U, '''    for i in range(len(RSA_PARAMS)):
      params[RSA_PARAMS[i]] = int(key[i+1])''',
'''    params.update(dict(zip(RSA_PARAMS, [int(value) for value in key[1:]])))'''))
r('a', (U, '''  seq = univ.Sequence()
  for i in range(len(vals)):
    seq.setComponentByPosition(i, vals[i])
  return seq
''', '''  seq = univ.Sequence()
  for i, val in enumerate(vals):
    seq.setComponentByPosition(i, val)
  return seq
'''))
r('a', (K, '''    if diff_len > 1:
      # If more bytes were chopped by PyCrypto, add zero bytes back on
      encoded_message = '\\x00' * (diff_len - 1) + encoded_message
''', '''    encoded_message = encoded_message.rjust(k - 1, '\\x00')
'''))
r('a', (K, '''    delimited_message = datablock[util.HLEN:].lstrip('\\x00')
    if delimited_message[:1] != '\\x01':
      raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
    return delimited_message[1:]  # The message''',
'''    position = util.HLEN
    while position < len(datablock) and datablock[position] == '\\x00':
      position += 1
    if position >= len(datablock) or datablock[position] != '\\x01':
      raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
    return datablock[position + 1:]  # The message'''))
r('a', (K, '''    self.__data += data
    encrypt_buffer_size = self.__key._NoPadBufferSize(len(self.__data))

    if len(self.__data) >= encrypt_buffer_size:
      self.__WriteEncrypted(self.__data[:encrypt_buffer_size])
    else:
      encrypt_buffer_size = 0

    self.__data = self.__data[encrypt_buffer_size:]
''', '''    data = self.__data + data
    rest = len(data) % self.__key.block_size
    if len(data) > rest:
      self.__WriteEncrypted(data[:len(data) - rest])
      data = data[len(data) - rest:]
    self.__data = data
'''))
r('a', (K, '''    if chars < 0:
      result = self.__decrypted_buffer
      self.__decrypted_buffer = ''
    else:
      result = self.__decrypted_buffer[:chars]
      self.__decrypted_buffer = self.__decrypted_buffer[chars:]

    if not result and is_data_avail:
      result = None

    return result
''', '''    if chars < 0:
      chars = len(self.__decrypted_buffer)
    result, self.__decrypted_buffer = (self.__decrypted_buffer[:chars],
                                       self.__decrypted_buffer[chars:])
    return result or (None if is_data_avail else '')
'''))
r('a', (K, '''        reserved_data_len = util.HLEN
        if is_data_avail:
          reserved_data_len += self.__key.block_size

        available_data = self.__encrypted_buffer[:-reserved_data_len]

        if is_data_avail:
          no_decrypt_len = len(available_data) % self.__key.block_size
        else:
          no_decrypt_len = 0
        # slicing with [:-0] does not work!
        if no_decrypt_len:
          data_to_decrypt = available_data[:-no_decrypt_len]
        else:
          data_to_decrypt = available_data
''', '''        decrypt_len = len(self.__encrypted_buffer) - util.HLEN
        if is_data_avail:
          decrypt_len -= self.__key.block_size
        decrypt_len = max(decrypt_len, 0)
        if is_data_avail:
          decrypt_len -= decrypt_len % self.__key.block_size
        data_to_decrypt = self.__encrypted_buffer[:decrypt_len]
'''))
r('a', (K, '''    need_more_data = True
    result = ''
    while need_more_data:
      read_bytes = self.__input_stream.read(size)
      if read_bytes:
        result += read_bytes
      elif read_bytes is not None:
        return (result, False)
      elif not block:
        return (result, True)
      need_more_data = (len(result) < size)

    return (result, True)
''', '''    result = []
    total = 0
    while True:
      chunk = self.__input_stream.read(size)
      if chunk:
        result.append(chunk)
        total += len(chunk)
      elif chunk is None:
        if not block:
          break
      else:
        return (''.join(result), False)
      if total >= size:
        break
    return (''.join(result), True)
'''))
r('a', (K, '''  try:
    return {keyinfo.AES: AesKey.Read,
            keyinfo.HMAC_SHA1: HmacKey.Read,
            keyinfo.DSA_PRIV: DsaPrivateKey.Read,
            keyinfo.RSA_PRIV: RsaPrivateKey.Read,
            keyinfo.DSA_PUB: DsaPublicKey.Read,
            keyinfo.RSA_PUB: RsaPublicKey.Read}[key_type](key)
  except KeyError:
    raise errors.KeyczarError("Unsupported key key_type: %s" % key_type)
''', '''  classes = ((keyinfo.AES, AesKey),
             (keyinfo.HMAC_SHA1, HmacKey),
             (keyinfo.DSA_PRIV, DsaPrivateKey),
             (keyinfo.RSA_PRIV, RsaPrivateKey),
             (keyinfo.DSA_PUB, DsaPublicKey),
             (keyinfo.RSA_PUB, RsaPublicKey))
  for known, cls in classes:
    if known == key_type:
      try:
        return cls.Read(key)
      except KeyError:
        break
  raise errors.KeyczarError("Unsupported key key_type: %s" % key_type)
'''))
r('a', (K, '''    return json.dumps({"publicKey": json.loads(str(self.public_key)),
                       "x": util.Base64WSEncode(self.params['x']),
                       "size": self.size})''',
'''    fields = dict(publicKey=json.loads(str(self.public_key)), size=self.size)
    fields["x"] = util.Base64WSEncode(self.params["x"])
    return json.dumps(fields)'''))
r('a', (K, '''    params = {'privateExponent': util.Base64WSDecode(rsa['privateExponent']),
              'primeP': util.Base64WSDecode(rsa['primeP']),
              'primeQ': util.Base64WSDecode(rsa['primeQ']),
              'primeExponentP': util.Base64WSDecode(rsa['primeExponentP']),
              'primeExponentQ': util.Base64WSDecode(rsa['primeExponentQ']),
              'crtCoefficient': util.Base64WSDecode(rsa['crtCoefficient'])
              }
''', '''    names = ('privateExponent', 'primeP', 'primeQ', 'primeExponentP',
             'primeExponentQ', 'crtCoefficient')
    params = {name: util.Base64WSDecode(rsa[name]) for name in names}
'''))
r('a', (K, '''    byte_string = util.BigIntToBytes(
        self.key.sign(util.ToBytes(emsa_encoded), None)[0])
    return util.PadBytes(byte_string, self.size//8 - len(byte_string))''',
'''    signature, = self.key.sign(util.ToBytes(emsa_encoded), None)
    return util.BigIntToBytes(signature).rjust(self.size // 8, "\\x00")'''))
r('a', (K, '''    k = random.SystemRandom().randint(2, self.key.q-1)
    (r, s) = self.key.sign(util.ToBytes(util.Hash(msg)), k)
    return util.MakeDsaSig(r, s)''', '''    digest = util.Hash(msg)
    k = random.SystemRandom().randrange(2, self.key.q)
    return util.MakeDsaSig(*self.key.sign(util.ToBytes(digest), k))'''))

# ---- tree b: key sets, metadata, readers, writers, tool, interop
r('b', (Z, """    for version in self.metadata.versions:
      if version.status == keyinfo.PRIMARY:
        if self.primary_version is not None:
          raise errors.KeyczarError(
              "Key sets may only have a single primary version")
        self.primary_version = version
      key = keys.ReadKey(self.metadata.type,
                         reader.GetKey(version.version_number))
      self._keys[version] = key
      self._keys[key.hash_id] = key
""", """    primaries = [v for v in self.metadata.versions
                 if v.status == keyinfo.PRIMARY]
    if len(primaries) > 1:
      raise errors.KeyczarError(
          "Key sets may only have a single primary version")
    if primaries:
      self.primary_version, = primaries
    for version in self.metadata.versions:
      self.__Load(reader, version)

  def __Load(self, reader, version):
    \"\"\"Reads the key of a version.\"\"\"
    data = reader.GetKey(version.version_number)
    key = keys.ReadKey(self.metadata.type, data)
    self._keys.update({version: key, key.hash_id: key})
"""))
r('b', (Z, """    try:
      return self._keys[key_id]
    except KeyError:
      raise errors.KeyNotFoundError(key_id)
""", """    key = self._keys.get(key_id)
    if key is None:
      raise errors.KeyNotFoundError(key_id)
    return key
"""))
r('b', (Z, """    max_version_number = 0
    for version in self.versions:
      if max_version_number < version.version_number:
        max_version_number = version.version_number

    # Make the new version number the max of the existing versions plus one
    version = keydata.KeyVersion(max_version_number + 1, status, False)
""", """    numbers = [v.version_number for v in self.versions]
    version = keydata.KeyVersion(max(numbers + [0]) + 1, status, False)
"""))
r('b', (Z, """    while True:
      key = keys.GenKey(self.metadata.type, size)
      if self._keys.get(key.hash_id) is None:
        break
""", """    key = keys.GenKey(self.metadata.type, size)
    while key.hash_id in self._keys:
      key = keys.GenKey(self.metadata.type, size)
"""))
r('b', (Z, """    version = self.metadata.GetVersion(version_number)
    if version.status == keyinfo.PRIMARY:
      raise errors.KeyczarError("Can't promote a primary key.")
    elif version.status == keyinfo.ACTIVE:
      version.status = keyinfo.PRIMARY
      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE  # only one primary key
      self.primary_version = version
    elif version.status == keyinfo.INACTIVE:
      version.status = keyinfo.ACTIVE
""", """    version = self.metadata.GetVersion(version_number)
    old_status = version.status
    if old_status is keyinfo.PRIMARY:
      raise errors.KeyczarError("Can't promote a primary key.")
    if old_status is keyinfo.INACTIVE:
      version.status = keyinfo.ACTIVE
      return
    old_primary, self.primary_version = self.primary_version, version
    if old_primary is not None:
      old_primary.status = keyinfo.ACTIVE
    version.status = keyinfo.PRIMARY
"""))
r('b', (Z, """    if version.status == keyinfo.PRIMARY:
      version.status = keyinfo.ACTIVE
      self.primary_version = None  # no more primary keys in the set
    elif version.status == keyinfo.ACTIVE:
      version.status = keyinfo.INACTIVE
    elif version.status == keyinfo.INACTIVE:
      raise errors.KeyczarError("Can't demote an inactive key, only revoke.")
""", """    demoted = {keyinfo.PRIMARY: keyinfo.ACTIVE,
               keyinfo.ACTIVE: keyinfo.INACTIVE}
    if version.status not in demoted:
      raise errors.KeyczarError("Can't demote an inactive key, only revoke.")
    if version is self.primary_version:
      self.primary_version = None  # no more primary keys in the set
    version.status = demoted[version.status]
"""))
r('b', (Z, """    if version.status == keyinfo.INACTIVE:
      self.metadata.RemoveVersion(version_number)
      key = self._keys.pop(version)
      if self._keys.get(key.hash_id) is key:
        del self._keys[key.hash_id]
    else:
      raise errors.KeyczarError("Can't revoke key if not inactive.")
""", """    if version.status != keyinfo.INACTIVE:
      raise errors.KeyczarError("Can't revoke key if not inactive.")
    key = self._keys[version]
    del self._keys[version]
    self._keys = {k: v for k, v in self._keys.items()
                  if not (k == key.hash_id and v is key)}
    self.metadata.RemoveVersion(version_number)
"""))
r('b', (Z, """    kmd = self.metadata
    pubkmd = None
    if kmd.type == keyinfo.DSA_PRIV and kmd.purpose == keyinfo.SIGN_AND_VERIFY:
      pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.VERIFY, keyinfo.DSA_PUB)
    elif kmd.type == keyinfo.RSA_PRIV:
      if kmd.purpose == keyinfo.DECRYPT_AND_ENCRYPT:
        pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.ENCRYPT, keyinfo.RSA_PUB)
      elif kmd.purpose == keyinfo.SIGN_AND_VERIFY:
        pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.VERIFY, keyinfo.RSA_PUB)
    if pubkmd is None:
      raise errors.KeyczarError("Cannot export public key")
    for v in self.versions:
      pubkmd.AddVersion(v)
      pubkey = self.GetKey(v).public_key
      if mock:  # only for testing
        mock.SetPubKey(v.version_number, pubkey)
      else:
        util.WriteFile(str(pubkey), os.path.join(dest, str(v.version_number)))
    if mock: # only for testing
      mock.pubkmd = pubkmd
    else:
      util.WriteFile(str(pubkmd), os.path.join(dest, "meta"))
""", """    public = {
        (keyinfo.DSA_PRIV, keyinfo.SIGN_AND_VERIFY):
            (keyinfo.VERIFY, keyinfo.DSA_PUB),
        (keyinfo.RSA_PRIV, keyinfo.DECRYPT_AND_ENCRYPT):
            (keyinfo.ENCRYPT, keyinfo.RSA_PUB),
        (keyinfo.RSA_PRIV, keyinfo.SIGN_AND_VERIFY):
            (keyinfo.VERIFY, keyinfo.RSA_PUB)}
    try:
      purpose, key_type = public[self.metadata.type, self.metadata.purpose]
    except KeyError:
      raise errors.KeyczarError("Cannot export public key")
    pubkmd = keydata.KeyMetadata(self.metadata.name, purpose, key_type)
    for v in self.versions:
      pubkmd.AddVersion(v)
    if mock:  # only for testing
      for v in self.versions:
        mock.SetPubKey(v.version_number, self.GetKey(v).public_key)
      mock.pubkmd = pubkmd
      return
    for v in self.versions:
      path = os.path.join(dest, "%d" % v.version_number)
      util.WriteFile(str(self.GetKey(v).public_key), path)
    util.WriteFile(str(pubkmd), os.path.join(dest, "meta"))
"""))
r('b', (Z, """    self.metadata.encrypted = (encrypter is not None)
    writer.WriteMetadata(self.metadata)
    for v in self.versions:
      writer.WriteKey(self.GetKey(v), v.version_number, encrypter)
""", """    self.metadata.encrypted = encrypter is not None
    pairs = sorted([(v.version_number, self.GetKey(v)) for v in self.versions],
                   key=lambda pair: pair[0])
    writer.WriteMetadata(self.metadata)
    for number, key in pairs:
      writer.WriteKey(key, number, encrypter)
"""))
r('b', (Z, """    for version in self.versions:
      key = self._keys[version]
      # Try to verify with each key
      result = key.Verify(data, sig_bytes)
      if result:
        return True

    # None of the keys verified the signature
    return False
""", """    candidates = [self._keys[version] for version in self.versions]
    return any(key.Verify(data, sig_bytes) for key in candidates)
"""))
r('b', (Z, """    data_bytes = decoder(ciphertext) if decoder else ciphertext
    if len(data_bytes) < HEADER_SIZE:
      raise errors.ShortCiphertextError(len(data_bytes))
    key = self._ParseHeader(data_bytes[:HEADER_SIZE])
    return key.Decrypt(data_bytes)
""", """    if decoder:
      ciphertext = decoder(ciphertext)
    header = ciphertext[:HEADER_SIZE]
    if len(header) == HEADER_SIZE:
      return self._ParseHeader(header).Decrypt(ciphertext)
    raise errors.ShortCiphertextError(len(ciphertext))
"""))
r('b', (Z, """    version = ord(header[0])
    if version != VERSION:
      raise errors.BadVersionError(version)
    return self.GetKey(util.Base64WSEncode(header[1:]))
""", """    version_byte, key_hash = header[0], header[1:]
    if version_byte != chr(VERSION):
      raise errors.BadVersionError(ord(version_byte))
    return self.GetKey(util.Base64WSEncode(key_hash))
"""))
r('b', (Z, """    data, offset = util.UnpackByteArray(decoded_data, HEADER_SIZE)
    signature = decoded_data[offset:]
    if self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data, nonce):
      return data
    else:
      return None
""", """    header = decoded_data[:HEADER_SIZE]
    data, end = util.UnpackByteArray(decoded_data[HEADER_SIZE:], 0)
    valid = self.__InternalVerify(header, decoded_data[HEADER_SIZE + end:],
                                  data, nonce)
    return data if valid else None
"""))
r('b', (Z, """    unpacked = util.UnpackMultipleByteArrays(packed_key_data)
    assert len(unpacked) == 2
    aes_key_bytes = unpacked[0]
    hmac_key_bytes = unpacked[1]
""", """    aes_key_bytes, hmac_key_bytes = util.UnpackMultipleByteArrays(
        packed_key_data)
"""))
r('b', (Z, """    ciphertext = self._verifier.AttachedVerify(signed_ciphertext, self._session.nonce)
    if not ciphertext:
      return None
    return self._session.crypter.Decrypt(ciphertext, None)
""", """    session = self._session
    ciphertext = self._verifier.AttachedVerify(signed_ciphertext, session.nonce)
    return session.crypter.Decrypt(ciphertext, None) if ciphertext else None
"""))
r('b', (D, """    num = version.version_number
    if num not in self.__versions:
      self.__versions[num] = version
      return True
    return False
""", """    return self.__versions.setdefault(version.version_number,
                                      version) is version
"""))
r('b', (D, """    try:
      self.__versions.pop(version_number)
    except KeyError:
      raise errors.KeyczarError("No such version number: %d" % version_number)
""", """    if version_number not in self.__versions:
      raise errors.KeyczarError("No such version number: %d" % version_number)
    del self.__versions[version_number]
"""))
r('b', (D, """    for version in meta['versions']:
      kmd.AddVersion(KeyVersion.Read(version))
    return kmd
""", """    versions = [KeyVersion.Read(version) for version in meta['versions']]
    for version in versions:
      kmd.AddVersion(version)
    return kmd
"""))
r('b', (I, """def GetStatus(value):
  try:
    return statuses[value]
  except KeyError:
    raise errors.KeyczarError("Invalid Key Status")
""", """def GetStatus(value):
  for status in (PRIMARY, ACTIVE, INACTIVE):
    if status.name == value:
      return status
  raise errors.KeyczarError("Invalid Key Status")
"""))
r('b', (I, """    return size in self.__sizes
""", """    for valid in self.__sizes:
      if valid == size:
        return True
    return False
"""))
r('b', (R, """    return self._crypter.Decrypt(self._reader.GetKey(version_number))
""", """    sealed = self._reader.GetKey(version_number)
    return self._crypter.Decrypt(sealed)
"""))
r('b', (W, """    key = str(key)
    if encrypter:
      key = encrypter.Encrypt(key)  # encrypt key info before outputting
    util.WriteFile(key, os.path.join(self.location, str(version_number)))
    return
""", """    data = encrypter.Encrypt(str(key)) if encrypter else str(key)
    util.WriteFile(data, self.__Path(version_number))

  def __Path(self, version_number):
    return os.path.join(self.location, "%s" % version_number)
"""))
r('b', (T, """    if asymmetric is None:
      kmd = keydata.KeyMetadata(name, purpose, keyinfo.HMAC_SHA1)
    elif asymmetric.lower() == "rsa":
      kmd = keydata.KeyMetadata(name, purpose, keyinfo.RSA_PRIV)
    else:  # default to DSA
      kmd = keydata.KeyMetadata(name, purpose, keyinfo.DSA_PRIV)
""", """    key_type = keyinfo.HMAC_SHA1
    if asymmetric is not None:
      key_type = {"rsa": keyinfo.RSA_PRIV}.get(asymmetric.lower(),
                                               keyinfo.DSA_PRIV)
    kmd = keydata.KeyMetadata(name, purpose, key_type)
"""))
r('b', (T, """    for arg in argv:
      if arg.startswith("--"):
        arg = arg[2:]  # trim leading dashes
        try:
          [flag, val] = arg.split("=", 1)
          flags[GetFlag(flag)] = val
        except ValueError:
          print("Flags incorrectly formatted")
          Usage()
""", """    for arg in [a[2:] for a in argv if a[:2] == "--"]:
      flag, equals, val = arg.partition("=")
      if not equals:
        print("Flags incorrectly formatted")
        Usage()
        continue
      flags[GetFlag(flag)] = val
"""))
r('b', (T, """    elif cmd == PUBKEY:
      PubKey(loc, flags.get(DESTINATION))
    elif cmd == PROMOTE:
      Promote(loc, version)
    elif cmd == DEMOTE:
      Demote(loc, version)
    elif cmd == REVOKE:
      Revoke(loc, version)
    elif cmd == GENKEY:
      GenKeySet(loc)
    else:
      Usage()
""", """    elif cmd in (PROMOTE, DEMOTE, REVOKE):
      action = {PROMOTE: Promote, DEMOTE: Demote, REVOKE: Revoke}[cmd]
      action(loc, version)
    elif cmd == PUBKEY:
      PubKey(loc, flags.get(DESTINATION))
    elif cmd == GENKEY:
      GenKeySet(loc)
    else:
      Usage()
"""))
r('b', (T, """  czar.Revoke(num)
  UpdateGenericKeyczar(czar, loc)
  if mock is not None:  # testing, update mock
    mock.RemoveKey(num)
  else:
    writer = writers.CreateWriter(loc)
    try:
      writer.Remove(num)
    finally:
      writer.Close()
""", """  czar.Revoke(num)
  UpdateGenericKeyczar(czar, loc)
  _RemoveKey(loc, num)

def _RemoveKey(loc, num):
  if mock is not None:  # testing, update mock
    mock.RemoveKey(num)
    return
  writer = writers.CreateWriter(loc)
  try:
    writer.Remove(num)
  finally:
    writer.Close()
"""))
r('b', (P, """    for algorithm in algorithms:
      if algorithms[algorithm]["purpose"] == purpose:
        for size in algorithms[algorithm]["keySizes"]:
          if purpose == "crypt" and algorithms[algorithm]["asymmetric"]:
            yield cls(key_set_options, algorithm, size, "encrypt")
          yield cls(key_set_options, algorithm, size, purpose)
""", """    for algorithm, config in algorithms.items():
      if config["purpose"] != purpose:
        continue
      purposes = [purpose]
      if purpose == "crypt" and config["asymmetric"]:
        purposes.insert(0, "encrypt")
      for size, use in itertools.product(config["keySizes"], purposes):
        yield cls(key_set_options, algorithm, size, use)
"""))
r('b', (P, """        ignored_ops = ignored_test["options"]
        ignored = True
        for option_name in ignored_ops:
          if option_name != "*" and (
              option_name not in options or
              options[option_name] not in ignored_ops[option_name]):
            ignored = False

        if ignored:
""", """        ignored_ops = ignored_test["options"]
        if all(name == "*" or
               (name in options and options[name] in ignored_ops[name])
               for name in ignored_ops):
"""))
r('b', (P, """    option_dict = dict(list(key_set_options.items()) + list(operation_options.items()))
    if not option_dict:
      yield {}
    else:
      for name, option_list in option_dict.items():
        if isinstance(option_list, str):
          option_dict[name] = self.macros[option_list]
      names, all_options = list(zip(*list(option_dict.items())))
      for options in itertools.product(*all_options):
        yield dict([(name, option) for name, option in zip(names, options)])
""", """    option_dict = dict(key_set_options)
    option_dict.update(operation_options)
    names = list(option_dict)
    all_options = []
    for name in names:
      values = option_dict[name]
      all_options.append(
          self.macros[values] if isinstance(values, str) else values)
    for options in itertools.product(*all_options):
      yield dict(zip(names, options))
"""))
r('b', (P, """          combined_options = dict(list(options.items()) + list(generate_options.items()))
""", """          combined_options = {**options, **generate_options}
"""))
r('b', (P, """    commands = [create_flags]
    commands += 2 * [add_key_flags]
    if asymmetric:
      self._MakeDirs(location + "public")
      commands.append(self._GetPubKeyFlags(location))
    params = {
        "command": "create",
        "keyczartCommands": commands
    }
    self.logger.Debug(
        self._CallImplementation(implementation, json.dumps(params)))

  def _CreateEncrypted(
""", """    commands = [create_flags, add_key_flags, add_key_flags]
    if asymmetric:
      self._MakeDirs(location + "public")
      commands = commands + [self._GetPubKeyFlags(location)]
    self._RunCreate(implementation, commands)

  def _RunCreate(self, implementation, commands):
    request = json.dumps({"command": "create", "keyczartCommands": commands})
    response = self._CallImplementation(implementation, request)
    self.logger.Debug(response)

  def _CreateEncrypted(
"""))
r('b', (P, """    for implementation in self.implementations:
      for algorithm in self.algorithms:
        for size in self.algorithms[algorithm]["keySizes"]:
          self._Create(implementation, algorithm, size,
                       self.algorithms[algorithm]["asymmetric"])
    for implementation in self.implementations:
      for algorithm in self.algorithms:
        for size in self.algorithms[algorithm]["keySizes"]:
          self._CreateEncrypted(
              implementation, algorithm, size, CRYPTED_KEY_SET_ALGORITHM,
              self.algorithms[algorithm]["asymmetric"])
""", """    todo = [(implementation, algorithm, size)
            for implementation in self.implementations
            for algorithm in self.algorithms
            for size in self.algorithms[algorithm]["keySizes"]]
    for implementation, algorithm, size in todo:
      self._Create(implementation, algorithm, size,
                   self.algorithms[algorithm]["asymmetric"])
    for implementation, algorithm, size in todo:
      self._CreateEncrypted(
          implementation, algorithm, size, CRYPTED_KEY_SET_ALGORITHM,
          self.algorithms[algorithm]["asymmetric"])
"""))
r('b', (P, """        test = self.InteropTestGenerator(
            output,
            test_implementation,
            generate_implementation,
            operation,
            keyset.name,
            generate_options,
            test_options)
        setattr(self.InteropTest, test_name, test)
""", """        test_args = (output, test_implementation, generate_implementation,
                     operation, keyset.name, generate_options, test_options)
        setattr(self.InteropTest, test_name,
                lambda _, test_args=test_args: self._Test(*test_args))
"""))
r('b', (P, """      if arg in ("help", "h"):
        return Usage()
      try:
        [flag, val] = arg.split("=")
        if flag not in flags:
          raise ValueError("flag not in flags")
        flags[flag] = val
      except ValueError:
        print("Flags incorrectly formatted")
        return Usage()
""", """      if arg == "help" or arg == "h":
        return Usage()
      parts = arg.split("=")
      if len(parts) != 2 or parts[0] not in flags:
        print("Flags incorrectly formatted")
        return Usage()
      flags[parts[0]] = parts[1]
"""))

# ---- tree c: the same functions as in a and b, written yet another way
r('c', (K, """    result = 0
    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)
    return result == 0""", """    return not functools.reduce(
        lambda acc, i: acc | (ord(mac_bytes[i]) ^ ord(sig_bytes[i])),
        range(len(mac_bytes)), 0)"""), (K, "import hmac\n", "import functools\nimport hmac\n"))
r('c', (K, """    pad = self.block_size - len(data) % self.block_size
    return data + pad * chr(pad)""", """    used = len(data) & (self.block_size - 1)
    pad = self.block_size - used
    return "%s%s" % (data, "".join(chr(pad) for _ in range(pad)))"""))
r('c', (K, """    pad = ord(padded[-1])
    return padded[:-pad]""", """    end = len(padded) - ord(padded[-1])
    return padded[:end] if end > 0 else ''"""))
r('c', (U, """  md = sha1()
  for i in inputs:
    md.update(ToBytes(i))
  return ToByteString(md.digest())
""", """  md = hashlib.new("sha1")
  for data in map(ToBytes, inputs):
    md.update(data)
  return md.digest().decode("latin-1")
"""), (U, "import functools\n", "import functools\nimport hashlib\n"))
r('c', (U, """  byte_array = [m % 256 for m in [n >> 24, n >> 16, n >> 8, n]]
  return "".join([chr(b) for b in byte_array])  # byte array to byte string""",
"""  return "".join(chr((n >> shift) & 0xff) for shift in range(24, -1, -8))"""))
r('c', (U, """  l = len(byte_string)
  return int(sum([ord(byte_string[i]) * 256**(l - 1 - i) for i in range(l)]))""",
"""  result = 0
  for char in byte_string:
    result = (result << 8) | ord(char)
  return result"""))
r('c', (U, """  chars = []
  while (n > 0):
    chars.append(chr(n % 256))
    n = n >> 8
  chars.reverse()
  return "".join(chars)""", """  result = ""
  while n > 0:
    n, low = divmod(n, 256)
    result = chr(low) + result
  return result"""))
r('c', (U, """  m = max(len(a), len(b))
  if m > len(a):
    a = PadBytes(a, m - len(a))
  elif m > len(b):
    b = PadBytes(b, m - len(b))
  x = [ord(c) for c in a]
  y = [ord(c) for c in b]
  z = [chr(x[i] ^ y[i]) for i in range(m)]
  return "".join(z)""", """  if len(a) < len(b):
    a, b = b, a
  b = PadBytes(b, len(a) - len(b))
  return ToByteString(bytes(x ^ y for x, y in zip(ToBytes(a), ToBytes(b))))"""))
r('c', (U, """  s = ''.join(s.splitlines())
  s = str(s.replace(" ", ""))  # kill whitespace, make string (not unicode)
  d = len(s) % 4
  if d == 1:
    raise errors.Base64DecodingError()
  elif d == 2:
    s += "=="
  elif d == 3:
    s += "="
  try:""", """  s = ''.join(''.join(s.splitlines()).split(" "))
  if len(s) % 4 == 1:
    raise errors.Base64DecodingError()
  while len(s) % 4:
    s += "="
  try:"""))
r('c', (U, """  return ToByteString(base64.urlsafe_b64encode(ToBytes(s))).replace("=", "")""",
"""  encoded = ToByteString(base64.b64encode(ToBytes(s)))
  return encoded.translate({ord("+"): "-", ord("/"): "_", ord("="): None})"""))
r('c', (U, """  array_length_header = ToByteString(
      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array)))
  return array_length_header + array""",
"""  return _PackInt(len(array)) + array

def _PackInt(n):
  return ToByteString(n.to_bytes(4, "big"))"""))
r('c', (U, """  position = 4
  result = []
  while position < len(data):
    array, position = UnpackByteArray(data, position)
    result.append(array)
  assert position == len(data)
  return result""", """  result = []
  position, end = 4, len(data)
  while position < end:
    array, position = UnpackByteArray(data, position)
    result += [array]
  assert position == end
  return result"""))
r('c', (U, """  output = ""
  for i in range(int(math.ceil(mlen / float(HLEN)))):
    output += Hash(seed, IntToBytes(i))
  return output[:mlen]""", """  blocks = -(-mlen // HLEN)
  return "".join(Hash(seed, IntToBytes(i)) for i in range(blocks))[:mlen]"""))
r('c', (U, """    if not final:
      # only output exact multiples of 3-bytes => no padding
      len_to_write = 3 * (len(input) // 3)
    else:
      len_to_write = len(input)
    return (Base64WSEncode(input[:len_to_write]), len_to_write)
""", """    len_to_write = len(input)
    if not final:
      len_to_write -= len_to_write % 3
    return Base64WSEncode(input[:len_to_write]), len_to_write
"""))
r('c', (U, """    if not final:
      # only output exact multiples of 4-bytes => no padding
      len_to_read = 4 * (len(input) // 4)
    else:
      len_to_read = len(input)
    return (Base64WSDecode(input[:len_to_read]), len_to_read)
""", """    len_to_read = len(input) if final else len(input) & ~3
    return Base64WSDecode(input[:len_to_read]), len_to_read
"""))
r('c', (U, """    result = ('', 0)
    if self.buffer:
      result = self._buffer_decode(self.buffer, self.errors, True)
      self.buffer = ''
    return result[0]

class IncrementalBase64WSStreamReader""", """    if not self.buffer:
      return ''
    result, _ = self._buffer_decode(self.buffer, self.errors, True)
    self.buffer = ''
    return result

class IncrementalBase64WSStreamReader"""))
r('c', (U, """    if not result and newdata == '':
      if chars != 0:
        result = self.decoder.flush()
        if chars > 0:
          # keep what was not asked for
          self.charbuffer = result[chars:]
          result = result[:chars]
""", """    if newdata == '' and chars != 0 and not result:
      rest = self.decoder.flush()
      count = chars if chars > 0 else len(rest)
      result = rest[:count]
      if chars > 0:
        self.charbuffer = rest[count:]
"""))
r('c', (U, """  if (not isinstance(seq, (univ.Sequence, univ.SequenceOf)) or
      len(seq) != 2):
    raise errors.KeyczarError("Illegal DSA signature.")
  r = seq.getComponentByPosition(0)
  s = seq.getComponentByPosition(1)
  if not isinstance(r, univ.Integer) or not isinstance(s, univ.Integer):
    raise errors.KeyczarError("Illegal DSA signature.")
  return (int(r), int(s))
""", """  if not isinstance(seq, (univ.Sequence, univ.SequenceOf)):
    raise errors.KeyczarError("Illegal DSA signature.")
  parts = ParseASN1Sequence(seq)
  if len(parts) != 2 or not all(isinstance(p, univ.Integer) for p in parts):
    raise errors.KeyczarError("Illegal DSA signature.")
  return tuple(int(p) for p in parts)
"""))
r('c', (U, """  oid = ASN1Sequence(RSA_OID, univ.Null())
  key = univ.Sequence().setComponentByPosition(0, univ.Integer(0))  # version
  for i in range(len(RSA_PARAMS)):
    key.setComponentByPosition(i+1, univ.Integer(params[RSA_PARAMS[i]]))
  octkey = encoder.encode(key)
  seq = ASN1Sequence(univ.Integer(0), oid, univ.OctetString(octkey))
""", """  version = univ.Integer(0)
  numbers = [univ.Integer(params[name]) for name in RSA_PARAMS]
  octkey = encoder.encode(ASN1Sequence(version, *numbers))
  oid = ASN1Sequence(RSA_OID, univ.Null())
  seq = ASN1Sequence(univ.Integer(0), oid, univ.OctetString(octkey))
"""))
r('c', (K, """      "privateExponent": util.Base64WSEncode(self.params['privateExponent']),
      "primeP": util.Base64WSEncode(self.params['primeP']),
      "primeQ": util.Base64WSEncode(self.params['primeQ']),
      "primeExponentP": util.Base64WSEncode(self.params['primeExponentP']),
      "primeExponentQ": util.Base64WSEncode(self.params['primeExponentQ']),
      "crtCoefficient": util.Base64WSEncode(self.params['crtCoefficient']),
      "size": self.size})""", """      **{name: util.Base64WSEncode(self.params[name]) for name in (
          "privateExponent", "primeP", "primeQ", "primeExponentP",
          "primeExponentQ", "crtCoefficient")},
      "size": self.size})"""))
r('c', (K, """    pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
                   'p': util.PadBytes(util.BigIntToBytes(pubkey.p), 1),
                   'q': util.PadBytes(util.BigIntToBytes(pubkey.q), 1),
                   'y': util.PadBytes(util.BigIntToBytes(pubkey.y), 1)
                   }
""", """    pub_params = {}
    for name in 'gpqy':
      value = getattr(pubkey, name)
      pub_params[name] = util.PadBytes(util.BigIntToBytes(value), 1)
"""))
r('c', (K, """    label_hash = util.Hash(label)
    pad_octets = (k - len(msg) - 2 * util.HLEN - 2)  # Number of zeros to pad
    if pad_octets < 0:
      raise errors.KeyczarError("Message is too long: %d" % len(msg))
    datablock = label_hash + ('\\x00' * pad_octets) + '\\x01' + msg
""", """    body = '\\x01' + msg
    datablock = util.Hash(label) + body.rjust(k - 2 * util.HLEN - 1, '\\x00')
"""))
r('c', (K, """    emsa_encoded = util.MakeEmsaMessage(msg, self.size)
    byte_string = util.BigIntToBytes(
        self.key.sign(util.ToBytes(emsa_encoded), None)[0])
    return util.PadBytes(byte_string, self.size//8 - len(byte_string))""",
"""    emsa_encoded = util.ToBytes(util.MakeEmsaMessage(msg, self.size))
    number = self.key.sign(emsa_encoded, None)[0]
    digits = util.BigIntToBytes(number)
    while len(digits) < self.size // 8:
      digits = '\\x00' + digits
    return digits"""))
r('c', (K, """    self.__CheckOpen('flush')
    self.__WriteEncrypted(self.__data, pad=True)
    self.__output_stream.write(self.__hmac_stream.Sign())
    self.__output_stream.flush()
""", """    self.__CheckOpen('flush')
    stream = self.__output_stream
    self.__WriteEncrypted(self.__data, True)
    signature = self.__hmac_stream.Sign()
    stream.write(signature)
    stream.flush()
"""))
r('c', (K, """    if pad:
      data = self.__key._Pad(data)

    encrypted_bytes = self.__cipher.encrypt(data)
    self.__output_stream.write(encrypted_bytes)
    self.__hmac_stream.Update(encrypted_bytes)
""", """    plain = self.__key._Pad(data) if pad else data
    encrypted_bytes = self.__cipher.encrypt(plain)
    self.__hmac_stream.Update(encrypted_bytes)
    self.__output_stream.write(encrypted_bytes)
"""))
r('c', (K, """      if data_to_decrypt:
        self.__hmac_stream.Update(data_to_decrypt)
        self.__encrypted_buffer = self.__encrypted_buffer[len(data_to_decrypt):]
        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
        
        if not is_data_avail:
          if len(self.__encrypted_buffer) != util.HLEN:
            raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
          current_sig_bytes = self.__hmac_stream.Sign()
          msg_sig_bytes = self.__encrypted_buffer
          self.__encrypted_buffer = ''
          if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                      msg_sig_bytes):
            raise errors.InvalidSignatureError()
          self.__verified = True
          decrypted_data = self.__key._UnPad(decrypted_data)
          
        self.__decrypted_buffer += decrypted_data
        
""", """      if data_to_decrypt:
        self.__hmac_stream.Update(data_to_decrypt)
        self.__encrypted_buffer = self.__encrypted_buffer[len(data_to_decrypt):]
        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
        if not is_data_avail:
          self.__Finish()
          decrypted_data = self.__key._UnPad(decrypted_data)
        self.__decrypted_buffer += decrypted_data

"""), (K, """  def __ReadBytes(self, size, block=True):
""", """  def __Finish(self):
    \"\"\"Helper to check the signature at the end of the stream\"\"\"
    sig_bytes, self.__encrypted_buffer = self.__encrypted_buffer, ''
    if len(sig_bytes) != util.HLEN:
      raise errors.ShortCiphertextError(len(sig_bytes))
    if not self.__key.hmac_key.VerifySignedData(self.__hmac_stream.Sign(),
                                                sig_bytes):
      raise errors.InvalidSignatureError()
    self.__verified = True

  def __ReadBytes(self, size, block=True):
"""))
r('c', (Z, """    for version in self.versions:
      key = self._keys[version]
      # Try to verify with each key
      result = key.Verify(data, sig_bytes)
      if result:
        return True

    # None of the keys verified the signature
    return False
""", """    verified = False
    for version in reversed(self.versions):
      verified = verified or bool(self._keys[version].Verify(data, sig_bytes))
    return verified
"""))
r('c', (Z, """    max_version_number = 0
    for version in self.versions:
      if max_version_number < version.version_number:
        max_version_number = version.version_number

    # Make the new version number the max of the existing versions plus one
    version = keydata.KeyVersion(max_version_number + 1, status, False)
""", """    last = sorted(self.versions, key=lambda v: v.version_number)[-1:]
    number = last[0].version_number + 1 if last else 1
    version = keydata.KeyVersion(number, status, False)
"""))
r('c', (Z, """    elif version.status == keyinfo.ACTIVE:
      version.status = keyinfo.PRIMARY
      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE  # only one primary key
      self.primary_version = version
""", """    elif version.status == keyinfo.ACTIVE:
      for other in self.metadata.versions:
        if other.status == keyinfo.PRIMARY:
          other.status = keyinfo.ACTIVE
      version.status = keyinfo.PRIMARY
      self.primary_version = version
"""))
r('c', (Z, """    signature = self.primary_key.Header() + self.__InternalSign(data)
    return encoder(signature) if encoder else signature
""", """    body = self.__InternalSign(data)
    signature = self.primary_key.Header() + body
    if encoder is not None:
      return encoder(signature)
    return signature
"""))
r('c', (Z, """    signature = self.primary_key.Header() \\
                + util.PackByteArray(data) \\
                + self.__InternalSign(data, nonce)
""", """    signature = ''.join([self.primary_key.Header(),
                         util.PackByteArray(data),
                         self.__InternalSign(data, nonce)])
"""))
r('c', (D, """    return json.dumps({"name": self.name,
                       "purpose": str(self.purpose),                              
                       "type": str(self.type),
                       "encrypted": self.encrypted,
                       "versions": [json.loads(str(v)) for v in self.versions]})
""", """    fields = {"versions": [], "name": self.name,
              "type": "%s" % self.type, "purpose": "%s" % self.purpose,
              "encrypted": self.encrypted}
    for version in self.versions:
      fields["versions"].append(json.loads(str(version)))
    return json.dumps(fields, sort_keys=True, indent=2)
"""))
r('c', (D, """    return json.dumps({"versionNumber": self.version_number,
                             "status": str(self.status),
                             "exportable": self.exportable})
""", """    return json.dumps(dict(exportable=self.exportable,
                           status=self.status.name,
                           versionNumber=self.version_number))
"""))
r('c', (R, """  for sc in Reader.__subclasses__():
    reader = sc.CreateReader(location)
    if reader:
      return reader
  raise""", """  created = (sc.CreateReader(location) for sc in Reader.__subclasses__())
  reader = next((found for found in created if found), None)
  if reader is not None:
    return reader
  raise"""))
r('c', (W, """    result = None
    if os.path.exists(location):
      result = FileWriter(location)
    return result""", """    return cls(location) if os.path.exists(location) else None"""))
r('c', (T, """def Promote(loc, num):
  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  czar.Promote(num)
  UpdateGenericKeyczar(czar, loc)
""", """def _Change(loc, num, change):
  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  change(czar, num)
  UpdateGenericKeyczar(czar, loc)

def Promote(loc, num):
  _Change(loc, num, keyczar.GenericKeyczar.Promote)
"""), (T, """def Demote(loc, num):
  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  czar.Demote(num)
  UpdateGenericKeyczar(czar, loc)
""", """def Demote(loc, num):
  _Change(loc, num, lambda czar, number: czar.Demote(number))
"""))
r('c', (T, """  if loc is None:
    raise errors.KeyczarError("Need location")
  else:
    generic = None
    reader = readers.CreateReader(loc)
    try:
      if crypter:
        reader = readers.EncryptedReader(reader, crypter)
      generic = keyczar.GenericKeyczar(reader)
    finally:
      reader.Close()
    return generic
""", """  if loc is None:
    raise errors.KeyczarError("Need location")
  reader = readers.CreateReader(loc)
  try:
    if not crypter:
      return keyczar.GenericKeyczar(reader)
    return keyczar.GenericKeyczar(readers.EncryptedReader(reader, crypter))
  finally:
    reader.Close()
"""))
r('c', (P, """    for implementation in self.implementations:
      for test_keyset in Keyset.GetTestKeysets(keyset, self):
        for options in self._Options(operation, test_keyset, "testOptions"):
          combined_options = dict(list(options.items()) + list(generate_options.items()))
          if not self._IsException(
              implementation, operation, keyset.name, combined_options):
            yield (implementation, options)
""", """    def Candidates():
      for implementation in self.implementations:
        for test_keyset in Keyset.GetTestKeysets(keyset, self):
          for options in self._Options(operation, test_keyset, "testOptions"):
            yield implementation, options

    for implementation, options in Candidates():
      combined = dict(options)
      combined.update(generate_options)
      if self._IsException(implementation, operation, keyset.name, combined):
        continue
      yield (implementation, options)
"""))
r('c', (P, """      contains = lambda v, name: any(x in ignored_test[name] for x in (v, "*"))
      if (contains(implementation, "implementation") and
          contains(algorithm, "algorithm") and
          contains(operation, "operation")):
""", """      wanted = {"implementation": implementation, "algorithm": algorithm,
                "operation": operation}
      if all("*" in ignored_test[field] or value in ignored_test[field]
             for field, value in wanted.items()):
"""))
r('c', (P, """        if operation not in generate_dict:
          generate_dict[operation] = dict()
        for options in options_list:
          for option in options:
            if option not in generate_dict[operation]:
              generate_dict[operation][option] = set()
            generate_dict[operation][option].add(options[option])
""", """        known = generate_dict.setdefault(operation, {})
        for options in options_list:
          for option, value in options.items():
            known.setdefault(option, set()).add(value)
"""))
r('c', (P, """    add_key_flags = [
        "addkey",
        "--status=primary",
        "--size=" + str(size),
        "--location=" + location
        ]
    add_key_flags += flags
    add_key_flags += self.algorithms[algorithm]["addKeyFlags"]
    return add_key_flags
""", """    return (["addkey", "--status=primary", "--size=%s" % size,
             f"--location={location}"] + list(flags) +
            self.algorithms[algorithm]["addKeyFlags"])
"""))
r('c', (P, """    try:
      os.makedirs(location)
    except os.error:
      try:
        for filename in os.listdir(location):
          file_path = os.path.join(location, filename)
          if os.path.isfile(file_path):
            os.remove(file_path)
        self.logger.Debug("overwrote %s" % location)
""", """    try:
      os.makedirs(location)
    except OSError:
      try:
        paths = [os.path.join(location, name) for name in os.listdir(location)]
        for path in filter(os.path.isfile, paths):
          os.remove(path)
        self.logger.Debug("overwrote %s" % location)
"""))


# ---- tree d: rarer means of the language
r('d', (U, """  position = 4
  result = []
  while position < len(data):
    array, position = UnpackByteArray(data, position)
    result.append(array)
  assert position == len(data)
  return result
""", """  def arrays():
    nonlocal position
    while position < len(data):
      array, position = UnpackByteArray(data, position)
      yield array

  position = 4
  result = [*arrays()]
  assert position == len(data)
  return result
"""))
r('d', (U, """  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                            ToBytes(data[offset:offset + 4]))[0]
  offset += 4
  if array_len < 0 or array_len > len(data) - offset:
    raise errors.KeyczarError("Illegal byte array length.")
  return data[offset:offset + array_len], offset + array_len
""", """  (array_len,) = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                               ToBytes(data[offset:(start := offset + 4)]))
  if not 0 <= array_len <= len(data) - start:
    raise errors.KeyczarError("Illegal byte array length.")
  end = start + array_len
  return data[start:end], end
"""))
r('d', (U, """  md = sha1()
  for i in inputs:
    md.update(ToBytes(IntToBytes(len(i))))
    md.update(ToBytes(i))
  return ToByteString(md.digest())
""", """  md = sha1()
  for piece in (p for i in inputs for p in (IntToBytes(len(i)), i)):
    md.update(ToBytes(piece))
  return ToByteString(md.digest())
"""))
r('d', (U, """  output = ""
  for i in range(int(math.ceil(mlen / float(HLEN)))):
    output += Hash(seed, IntToBytes(i))
  return output[:mlen]
""", """  blocks = -(-mlen // HLEN)
  return "".join(map(lambda i: Hash(seed, IntToBytes(i)), range(blocks)))[:mlen]
"""))
r('d', (U, """    pickled_args = pickle.dumps((args, sorted(kwargs.items())))

    if pickled_args not in memory:
      memory[pickled_args] = func(*args,**kwargs)

    return memory[pickled_args]
""", """    pickled_args = pickle.dumps((args, sorted(kwargs.items())))
    try:
      return memory[pickled_args]
    except KeyError:
      return memory.setdefault(pickled_args, func(*args, **kwargs))
"""))
r('d', (U, """  try:
    return open(loc).read()
  except IOError:
    raise errors.KeyczarError("Unable to read file %s." % loc)
""", """  try:
    with open(loc, mode="r") as source:
      return "".join(source.readlines())
  except OSError as problem:
    raise errors.KeyczarError(
        "Unable to read file {}.".format(loc)) from problem
"""))
r('d', (Z, """    if version.status == keyinfo.PRIMARY:
      raise errors.KeyczarError("Can't promote a primary key.")
    elif version.status == keyinfo.ACTIVE:
      version.status = keyinfo.PRIMARY
      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE  # only one primary key
      self.primary_version = version
    elif version.status == keyinfo.INACTIVE:
      version.status = keyinfo.ACTIVE
""", """    def to_primary():
      version.status = keyinfo.PRIMARY
      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE  # only one primary key
      self.primary_version = version

    def refuse():
      raise errors.KeyczarError("Can't promote a primary key.")

    steps = [(keyinfo.PRIMARY, refuse), (keyinfo.ACTIVE, to_primary),
             (keyinfo.INACTIVE,
              lambda: setattr(version, "status", keyinfo.ACTIVE))]
    for status, step in steps:
      if version.status == status:
        step()
        break
"""))
r('d', (Z, """    if version.status == keyinfo.PRIMARY:
      version.status = keyinfo.ACTIVE
      self.primary_version = None  # no more primary keys in the set
    elif version.status == keyinfo.ACTIVE:
      version.status = keyinfo.INACTIVE
    elif version.status == keyinfo.INACTIVE:
      raise errors.KeyczarError("Can't demote an inactive key, only revoke.")
""", """    below = {str(keyinfo.PRIMARY): keyinfo.ACTIVE,
             str(keyinfo.ACTIVE): keyinfo.INACTIVE}
    was_primary = version.status == keyinfo.PRIMARY
    try:
      version.status = below[str(version.status)]
    except KeyError:
      raise errors.KeyczarError("Can't demote an inactive key, only revoke.")
    else:
      if was_primary:
        self.primary_version = None  # no more primary keys in the set
"""))
r('d', (Z, """    signature = self.primary_key.Header() \\
                + util.PackByteArray(data) \\
                + self.__InternalSign(data, nonce)
    return encoder(signature) if encoder else signature
""", """    parts = (self.primary_key.Header(), util.PackByteArray(data),
             self.__InternalSign(data, nonce))
    signature = "%s%s%s" % parts
    return (encoder or (lambda text: text))(signature)
"""))
r('d', (K, """    self.__CheckOpen('write')
    self.__data += data
    encrypt_buffer_size = self.__key._NoPadBufferSize(len(self.__data))

    if len(self.__data) >= encrypt_buffer_size:
      self.__WriteEncrypted(self.__data[:encrypt_buffer_size])
    else:
      encrypt_buffer_size = 0

    self.__data = self.__data[encrypt_buffer_size:]
""", """    self.__CheckOpen('write')
    pending = self.__data + data
    if whole := len(pending) // self.__key.block_size:
      size = whole * self.__key.block_size
      ready, pending = pending[:size], pending[size:]
      self.__WriteEncrypted(ready)
    self.__data = pending
"""))
r('d', (K, """    if pad:
      data = self.__key._Pad(data)

    encrypted_bytes = self.__cipher.encrypt(data)
    self.__output_stream.write(encrypted_bytes)
    self.__hmac_stream.Update(encrypted_bytes)
""", """    encrypted_bytes = self.__cipher.encrypt(
        self.__key._Pad(data) if pad else data)
    for use in (self.__output_stream.write, self.__hmac_stream.Update):
      use(encrypted_bytes)
"""))
r('d', (Z, """    signing_key = self.primary_key
    if signing_key is None:
      raise errors.NoPrimaryKeyError()
    return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)
""", """    if (signing_key := self.primary_key) is None:
      raise errors.NoPrimaryKeyError()
    return signing_key.Sign(
        "".join([data, util.PackByteArray(nonce), VERSION_BYTE]))
"""))

TREE = '/tmp/retree'
ALL = ['C%02d' % i for i in range(1, 34)]


def sh(cmd):
  return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT, text=True)


def run(name, items, checks, tree):
  shutil.rmtree(tree, ignore_errors=True)
  sh('git clone -q /repo ' + tree)
  for edits in items:
    for f, a, b in edits:
      t = open(os.path.join(tree, f)).read()
      if t.count(a) != 1:
        print('%s EDIT MATCHES %d TIMES: %r' % (name, t.count(a), a[:70]),
              flush=True)
        continue
      open(os.path.join(tree, f), 'w').write(t.replace(a, b))
  c = sh('cd %s && /opt/venv/bin/python -m py_compile python/src/keyczar/*.py '
         'interop/interop.py' % tree)
  if c.returncode:
    print(name, c.stdout[-300:])
    return
  for p in checks:
    c = sh('cd /verif && SX_REPO=%s SX_EVIDENCE=/tmp/reevidence timeout 900 '
           'python3-vt -m sx.check %s quick' % (tree, p))
    lines = c.stdout.strip().split('\n')
    ok = c.returncode == 0 and ' 0 inconclusive' in lines[-1]
    print('%-10s %s %s %s' % (name, p, 'quiet' if ok else 'NOT QUIET %d' %
                              c.returncode, lines[-1][:150]), flush=True)
    if not ok:
      print('\n'.join('    ' + l[:220] for l in lines[:8]), flush=True)
  shutil.rmtree(tree, ignore_errors=True)


def main(argv):
  checks = ALL
  if '--' in argv:
    checks = argv[argv.index('--') + 1:]
    argv = argv[:argv.index('--')]
  single = '--single' in argv
  argv = [a for a in argv if a != '--single']
  for name, items in sorted(TREES.items()):
    if argv and name not in argv:
      continue
    if single:
      for i, item in enumerate(items):
        run('%s%d' % (name, i), [item], checks, TREE + name + 's')
    else:
      run(name, items, checks, TREE + name)


if __name__ == '__main__':
  main(sys.argv[1:])
