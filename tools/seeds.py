"""Planted bugs: source of /verif/seeded (see mkseed.py)."""
K = 'python/src/keyczar/keys.py'
Z = 'python/src/keyczar/keyczar.py'
U = 'python/src/keyczar/util.py'
D = 'python/src/keyczar/keydata.py'
I = 'python/src/keyczar/keyinfo.py'
R = 'python/src/keyczar/readers.py'
W = 'python/src/keyczar/writers.py'
T = 'python/src/keyczar/keyczart.py'
P = 'interop/interop.py'
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
  SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks,
                    edits=edits, demo=demo))


seed('pad-block-multiple', 'C01',
     'a plaintext of whole blocks that ends with sixteen bytes of value 16',
     'no padding block is added to whole blocks unless their last byte looks '
     'like padding, so unpadding eats plaintext',
     [(K, '''    pad = self.block_size - len(data) % self.block_size
    return data + pad * chr(pad)''',
       '''    pad = -len(data) % self.block_size
    if not pad and (not data or ord(data[-1]) < self.block_size):
      pad = self.block_size
    return data + pad * chr(pad)'''),
      (K, '''    pad = ord(padded[-1])
    return padded[:-pad]''',
       '''    pad = ord(padded[-1])
    if padded[-pad:] != pad * chr(pad):
      return padded
    return padded[:-pad]''')],
     '''
c = crypter(keys.AesKey.Generate())
for data in ('', 'hello', 'a' * 16, 'b' * 15 + chr(1), 'x' * 33,
             chr(16) * 32):
  same(c.Decrypt(c.Encrypt(data)), data, 'decrypted')
''')
seed('mac-skips-iv', 'C02',
     'an attacker who flips bits of the initialization vector',
     'the MAC no longer covers the IV, so the first block can be altered',
     [(K, '''    sig_bytes = self.hmac_key.Sign(msg_bytes)  # Sign bytes
    return msg_bytes + sig_bytes''',
       '''    sig_bytes = self.hmac_key.Sign(self.Header() + ciph_bytes)
    return msg_bytes + sig_bytes'''),
      (K, '''    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):''',
       '''    if not self.hmac_key.Verify(input_bytes[:keyczar.HEADER_SIZE] +
                                ciph_bytes, sig_bytes):''')],
     '''
c = crypter(keys.AesKey.Generate())
ct = c.Encrypt('pay 100 to bob', encoder=None)
same(c.Decrypt(ct, decoder=None), 'pay 100 to bob', 'decrypted')
for i in (0, 5, 8, 20, 30, len(ct) - 1):
  bad = ct[:i] + chr(ord(ct[i]) ^ 1) + ct[i + 1:]
  refused(c.Decrypt, bad, decoder=None)
''')
seed('compare-zip', 'C04',
     'a signature that is a truncated copy of the real one (even an empty one)',
     'the comparison stops at the shorter string',
     [(K, '''    if len(sig_bytes) != len(mac_bytes):
      return False
''', '''    if len(sig_bytes) > len(mac_bytes):
      return False
''')],
     '''
s = signer(keys.HmacKey.Generate())
sig = s.Sign('data', encoder=None)
if not s.Verify('data', sig, decoder=None):
  raise SystemExit('honest signature')
for n in (5, 6, 24):
  try:
    if s.Verify('data', sig[:n], decoder=None):
      raise SystemExit('accepted a truncated signature')
  except errors.KeyczarError:
    pass
''')
seed('promote-two-primaries', 'C08',
     'promoting an active key of a set that was just read and has a primary',
     'the old primary keeps its status: the set has two primaries',
     [(Z, '''      version.status = keyinfo.PRIMARY
      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE  # only one primary key''',
       '''      version.status = keyinfo.PRIMARY
      if (self.primary_version is not None and
          self.primary_version.version_number < version.version_number):
        self.primary_version.status = keyinfo.ACTIVE  # only one primary key'''
       )],
     '''
for start, promote in (((keyinfo.PRIMARY, keyinfo.ACTIVE), 2),
                       ((keyinfo.ACTIVE, keyinfo.PRIMARY), 1)):
  g = key_set(keyczar.GenericKeyczar, keyinfo.SIGN_AND_VERIFY,
              [keys.HmacKey.Generate(), keys.HmacKey.Generate()], start)
  g.Promote(promote)
  same(sum(v.status == keyinfo.PRIMARY for v in g.versions), 1, 'primaries')
''')
seed('version-number-count', 'C09',
     'adding a key after a lower version was revoked',
     'version numbers are counted instead of continued: a number is reused '
     'and a key replaced',
     [(Z, '''    max_version_number = 0
    for version in self.versions:
      if max_version_number < version.version_number:
        max_version_number = version.version_number
''', '''    max_version_number = len(self.versions)
''')],
     '''
g = key_set(keyczar.GenericKeyczar, keyinfo.SIGN_AND_VERIFY,
            [keys.HmacKey.Generate(), keys.HmacKey.Generate()],
            (keyinfo.INACTIVE, keyinfo.PRIMARY))
old = g.primary_key
g.Revoke(1)
g.AddVersion(keyinfo.ACTIVE)
same(sorted(v.version_number for v in g.versions), [2, 3], 'versions')
same(g.primary_key == old, True, 'primary')
''')
seed('b64-strip-outer-blanks', 'C14',
     'encoded text with a blank in the middle, such as wrapped text joined '
     'by blanks',
     'only blanks at the ends are ignored; inner ones reach the decoder and '
     'spoil the length arithmetic',
     [(U, '''  s = str(s.replace(" ", ""))  # kill''', '''  s = str(s.strip(" "))  # kill''')],
     '''
for data in ('', 'a', 'ab', 'abc', '\\xff\\xfe' * 9):
  e = util.Base64WSEncode(data)
  for t in (e, ' ' + e + ' ', e[:3] + ' ' + e[3:], e[:1] + '\\n' + e[1:]):
    same(util.Base64WSDecode(t), data, 'decoded')
''')
seed('key-id-prefix', 'C07',
     'a ciphertext under a non-primary key whose identifier ends with the '
     'Base64 of bytes that only differ in the last byte',
     'key lookup by a prefix of the identifier picks the wrong key',
     [(Z, '''      return self._keys[key_id]
    except KeyError:
      raise errors.KeyNotFoundError(key_id)''',
       '''      return self._keys[key_id]
    except KeyError:
      if isinstance(key_id, str):
        for known in self._keys:
          if isinstance(known, str) and known[:5] == key_id[:5]:
            return self._keys[known]
      raise errors.KeyNotFoundError(key_id)''')],
     '''
c = crypter(keys.AesKey.Generate(), keys.AesKey.Generate())
ct = c.Encrypt('hello', encoder=None)
bad = ct[:4] + chr(ord(ct[4]) ^ 1) + ct[5:]
e = refused(c.Decrypt, bad, decoder=None)
same(type(e), errors.KeyNotFoundError, 'error')
''')
seed('nonce-first-block', 'C05',
     'two nonces longer than sixteen bytes that differ only after the '
     'sixteenth',
     'only the first sixteen bytes of the nonce are signed, on both sides, so '
     'a blob verifies under other nonces',
     [(Z, '''    return key.Verify(data + util.PackByteArray(nonce) + VERSION_BYTE, signature)''',
       '''    return key.Verify(data + util.PackByteArray(nonce and nonce[:SESSION_NONCE_SIZE]) + VERSION_BYTE, signature)'''),
      (Z, '''    return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)''',
       '''    return signing_key.Sign(data + util.PackByteArray(nonce and nonce[:SESSION_NONCE_SIZE]) + VERSION_BYTE)''')],
     '''
s = signer(keys.HmacKey.Generate())
for nonce, other in (('a' * 16, 'a' * 15 + 'b'), ('n' * 20, 'n' * 19 + 'm')):
  blob = s.AttachedSign('data', nonce)
  same(s.AttachedVerify(blob, nonce), 'data', 'own nonce')
  same(s.AttachedVerify(blob, other), None, 'other nonce')
''')
seed('unversioned-skips-inactive', 'C06',
     'a standard signature whose key has been demoted to inactive, in a set '
     'whose primary is another key',
     'inactive keys no longer take part in the verification',
     [(Z, '''    for version in self.versions:
      key = self._keys[version]
      # Try to verify with each key''',
       '''    for version in self.versions:
      if self.primary_version and version.status == keyinfo.INACTIVE:
        continue
      key = self._keys[version]
      # Try to verify with each key''')],
     '''
a, b = keys.HmacKey.Generate(), keys.HmacKey.Generate()
sig = key_set(keyczar.UnversionedSigner, keyinfo.SIGN_AND_VERIFY,
              [a]).Sign('data')
for st in (keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE):
  other = keyinfo.ACTIVE if st == keyinfo.PRIMARY else keyinfo.PRIMARY
  v = key_set(keyczar.UnversionedVerifier, keyinfo.SIGN_AND_VERIFY, [b, a],
              [other, st])
  same(v.Verify('data', sig), True, str(st))
''')
seed('demote-forgets-primary', 'C08',
     'demoting an active key of a set that has a primary, then promoting '
     'another active key',
     'the primary is forgotten when any key is demoted, so a later promotion '
     'leaves two primaries',
     [(Z, '''      version.status = keyinfo.INACTIVE
    elif version.status == keyinfo.INACTIVE:
      raise''', '''      version.status = keyinfo.INACTIVE
      if len(self.versions) > 2:
        self.primary_version = None
    elif version.status == keyinfo.INACTIVE:
      raise''')],
     '''
ks = [keys.HmacKey.Generate() for _ in range(3)]
g = key_set(keyczar.GenericKeyczar, keyinfo.SIGN_AND_VERIFY, ks)
g.Demote(2)
g.Promote(3)
same([str(g.metadata.GetVersion(n).status) for n in (1, 2, 3)],
     ['ACTIVE', 'INACTIVE', 'PRIMARY'], 'statuses')
''')
seed('file-tail-kept', 'C11',
     'overwriting a file with shorter contents',
     'files are overwritten in place without being cut, so the tail of the '
     'old contents stays behind',
     [(U, '''    f = open(loc, "w")''',
       '''    f = open(loc, "r+" if os.path.isfile(loc) else "w")''')],
     '''
import shutil, tempfile
d = tempfile.mkdtemp()
try:
  w = writers.FileWriter(d)
  ks = [keys.HmacKey.Generate() for _ in range(2)]
  for st in ([keyinfo.PRIMARY, keyinfo.ACTIVE], [keyinfo.PRIMARY]):
    g = key_set(keyczar.GenericKeyczar, keyinfo.SIGN_AND_VERIFY,
                ks[:len(st)], st)
    g.Write(w)
    r = keyczar.GenericKeyczar(readers.FileReader(d))
    same(str(r.metadata), str(g.metadata), 'metadata')
finally:
  shutil.rmtree(d)
''')
seed('aes-signing-key-shared', 'C12',
     'generating an AES key of 256 bits, the size of a signing key',
     'the signing key is the AES key itself instead of independent random '
     'bytes',
     [(K, '''    hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size''',
       '''    if keyinfo.HMAC_SHA1.IsValidSize(size):
      hmac_key = HmacKey(key_string, size)
    else:
      hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size''')],
     '''
for size in (128, 192, 256):
  k = keys.AesKey.Generate(size)
  same(len(k.key_bytes), size // 8, 'size')
  same(len(k.hmac_key.key_bytes), 32, 'signing key size')
  if k.hmac_key.key_bytes == k.key_bytes:
    raise SystemExit('the signing key is not independent')
''')
seed('stream-idle-early', 'C16',
     'a source that has no data for the moment after the whole ciphertext was '
     'delivered and before it reports its end',
     'the last block is taken for complete as soon as the source pauses, and '
     'the end of the message is lost',
     [(K, '''        if is_data_avail:
          reserved_data_len += self.__key.block_size
''', '''        if is_data_avail and read_bytes:
          reserved_data_len += self.__key.block_size
''')],
     '''
c = crypter(keys.AesKey.Generate())


class Slow(object):
  def __init__(self, data, pauses):
    self.d, self.p = data, pauses

  def read(self, n=-1):
    if len(self.d) <= self.p[0] and self.p[1]:
      self.p[1] -= 1
      return None
    r, self.d = self.d[:n], self.d[n:]
    return r


for size in (0, 5, 16, 40):
  data = 'x' * size
  ct = c.Encrypt(data, encoder=None)
  for left in (0, 1, 16, 20, 21, 36):
    r = c.CreateDecryptingStreamReader(Slow(ct, [left, 3]), decoder=None)
    got = ''
    for _ in range(200):
      try:
        piece = r.read()
      except errors.KeyczarError as e:
        raise SystemExit('refused a genuine stream: %r' % e)
      if piece == '':
        break
      got += piece or ''
    same(got, data, 'decrypted with a pause')
''')
seed('stream-read-nothing', 'C17',
     'a tampered stream whose last part is taken in by read(0)',
     'the signature is only checked when the caller asks for data',
     [(K, '''          if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
''', '''          if chars and not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
''')],
     '''
import io
c = crypter(keys.AesKey.Generate())
ct = c.Encrypt('some data', encoder=None)
for i in (10, 25, len(ct) - 1):
  bad = ct[:i] + chr(ord(ct[i]) ^ 1) + ct[i + 1:]
  for n in (-1, 4, 0):
    r = c.CreateDecryptingStreamReader(io.StringIO(bad), decoder=None)

    def everything():
      for _ in range(20):
        r.read(n)
      return r.read()

    refused(everything)
''')
seed('pack-empty', 'C18',
     'an empty array among the packed ones',
     'empty arrays are packed as nothing at all and disappear',
     [(U, '''  if array is None:
    return \'\'''', '''  if not array:
    return \'\'''')],
     '''
for arrays in (['a'], ['ab', 'c'], ['', 'x'], ['x', '', '']):
  same(util.UnpackMultipleByteArrays(util.PackMultipleByteArrays(*arrays)),
       arrays, 'unpacked')
''')
seed('oaep-one-zero', 'C20',
     'an OAEP encoding whose second byte is zero (one in 256)',
     'exactly one dropped zero byte is not put back',
     [(K, '''    if diff_len > 1:
''', '''    if diff_len > 2:
''')],
     '''
priv = keys.RsaPrivateKey.Generate(1024)
c = key_set(keyczar.Crypter, keyinfo.DECRYPT_AND_ENCRYPT, [priv])
for i in range(3000):
  msg = 'message %d' % i
  ct = c.Encrypt(msg)
  try:
    same(c.Decrypt(ct), msg, 'decrypted')
  except errors.KeyczarError as e:
    raise SystemExit('refused a genuine ciphertext: %s' % e)
''')
seed('dsa-k-twice', 'C22',
     'two signatures in a row with the same key object',
     'the per-message secret is kept and used for two messages, which reveals '
     'the private key',
     [(K, '''    k = random.SystemRandom().randint(2, self.key.q-1)
''', '''    k = self.__dict__.pop('_next', None)
    if k is None:
      k = self._next = random.SystemRandom().randint(2, self.key.q-1)
''')],
     '''
k = DSA_KEY()
r = [util.ParseDsaSig(k.Sign('message %d' % i))[0] for i in range(4)]
same(len(set(r)), 4, 'different first numbers')
same(k.Verify('message 1', k.Sign('message 1')), True, 'verified')
''')
seed('export-inactive', 'C23',
     'exporting a set that has an inactive key',
     'the exported metadata lists inactive keys as active',
     [(Z, '''    for v in self.versions:
      pubkmd.AddVersion(v)
''', '''    for v in self.versions:
      status = keyinfo.PRIMARY if v is self.primary_version else keyinfo.ACTIVE
      pubkmd.AddVersion(keydata.KeyVersion(v.version_number, status,
                                           v.exportable))
''')],
     '''
import shutil, tempfile
d = tempfile.mkdtemp()
try:
  ks = [DSA_KEY()] * 3
  sts = [keyinfo.ACTIVE, keyinfo.PRIMARY, keyinfo.INACTIVE]
  g = key_set(keyczar.GenericKeyczar, keyinfo.SIGN_AND_VERIFY, ks, sts)
  g.PublicKeyExport(d)
  m = keydata.KeyMetadata.Read(util.ReadFile(d + '/meta'))
  same([str(m.GetVersion(n).status) for n in (1, 2, 3)],
       ['ACTIVE', 'PRIMARY', 'INACTIVE'], 'exported statuses')
finally:
  shutil.rmtree(d)
''')
seed('session-cache-mixup', 'C24',
     'two sessions used in the same process',
     'the cached crypter is looked up by the number of arguments, so every '
     'later session gets the key of the first',
     [(U, '''    pickled_args = pickle.dumps((args, sorted(kwargs.items())))''',
       '''    pickled_args = pickle.dumps((len(args), sorted(kwargs.items())))''')],
     '''
c = crypter(keys.AesKey.Generate())
a, b = keyczar.SessionEncrypter(c), keyczar.SessionEncrypter(c)
ca, cb = a.Encrypt('one'), b.Encrypt('two')
same(keyczar.SessionDecrypter(c, a.session_material).Decrypt(ca), 'one', 'a')
same(keyczar.SessionDecrypter(c, b.session_material).Decrypt(cb), 'two', 'b')
refused(keyczar.SessionDecrypter(c, a.session_material).Decrypt, cb)
''')
seed('trim-one-zero', 'C27',
     'a public key read from JSON whose parameters carry two leading zero '
     'bytes',
     'only one leading zero byte is trimmed before hashing',
     [(U, '''  trimmed = byte_string.lstrip(chr(0))
''', '''  trimmed = byte_string
  if trimmed.startswith(chr(0)):
    trimmed = trimmed[1:]
''')],
     '''
import json
k = DSA_KEY().public_key
for zeros in (0, 1, 3):
  d = json.loads(str(k))
  for f in 'pqgy':
    raw = util.Base64WSDecode(d[f]).lstrip(chr(0))
    d[f] = util.Base64WSEncode(zeros * chr(0) + raw)
  same(keys.DsaPublicKey.Read(json.dumps(d)).hash_id, k.hash_id, 'identifier')
''')
seed('tool-revoke-last', 'C29',
     'revoking the only key of a set with the key tool',
     'the key file stays on disk although the key was revoked',
     [(T, '''    try:
      writer.Remove(num)
    finally:''', '''    try:
      if czar.versions:
        writer.Remove(num)
    finally:''')],
     '''
import os, shutil, tempfile
from keyczar import keyczart
d = tempfile.mkdtemp()
try:
  run = lambda *a: keyczart.main(list(a) + ['--location=' + d])
  run('create', '--purpose=sign')
  run('addkey')
  run('addkey')
  for n in '12':
    run('demote', '--version=' + n)
    run('revoke', '--version=' + n)
    same(os.path.exists(os.path.join(d, n)), False, 'key file ' + n)
  same(os.listdir(d), ['meta'], 'files')
finally:
  shutil.rmtree(d)
''')
seed('interop-option-substring', 'C30',
     'an ignore rule for an option value of which another value is a part',
     'option values are searched in the joined text of the rule, so the other '
     'value is left out as well',
     [(P, '''              options[option_name] not in ignored_ops[option_name]):''',
       '''              options[option_name] not in ",".join(ignored_ops[option_name])):''')],
     '''
import interop
r = interop.InteropTestRunner.__new__(interop.InteropTestRunner)
r.logger = interop.InteropLogger()
r.ignored_tests = [{'implementation': ['py'], 'algorithm': ['*'],
                    'operation': ['*'], 'reason': 'x',
                    'options': {'encoding': ['encoded', 'other']}}]
for value, want in (('encoded', True), ('code', False), ('none', False)):
  same(r._IsException('py', 'sign', 'hmac256', {'encoding': value}), want,
       value)
''')
seed('stream-iv-per-key', 'C03',
     'two streams written with the same key object',
     'the initialization vector is drawn once per key object, so all of its '
     'streams share it',
     [(K, """    iv_bytes = util.RandBytes(key.block_size)
    self.__cipher""", """    if not hasattr(key, '_iv'):
      key._iv = util.RandBytes(key.block_size)
    iv_bytes = key._iv
    self.__cipher""")],
     '''
class Sink(object):
  def __init__(self):
    self.data = ''

  def write(self, data):
    self.data += data

  def flush(self):
    pass


c = crypter(keys.AesKey.Generate())
seen = set()
for i in range(3):
  out = Sink()
  w = c.CreateEncryptingStreamWriter(out, None)
  w.write('the same text')
  w.flush()
  same(c.Decrypt(out.data, decoder=None), 'the same text', 'decrypted')
  seen.add(out.data[5:21])
same(len(seen), 3, 'different initialization vectors')
''')
seed('stream-buf-limit', 'C16',
     'a reader that asks for few bytes at a time while the source delivers a '
     'large ciphertext at once',
     'at most 4096 decrypted bytes are kept, older ones are dropped',
     [(K, """        self.__decrypted_buffer += decrypted_data
""", """        self.__decrypted_buffer = (self.__decrypted_buffer +
                                   decrypted_data)[-4096:]
""")],
     '''
import random


class Source(object):
  def __init__(self, data):
    self.d = data

  def read(self, n=-1):
    n = len(self.d) if n is None or n < 0 else n
    r, self.d = self.d[:n], self.d[n:]
    return r


c = crypter(keys.AesKey.Generate())
rnd = random.Random(1)
for size, ask in ((100, None), (100, 1), (9000, None), (9000, 1),
                  (5000, 7)):
  data = ''.join(chr(rnd.randrange(256)) for _ in range(size))
  ct = c.Encrypt(data, encoder=None)
  r = c.CreateDecryptingStreamReader(Source(ct), decoder=None)
  got = ''
  while True:
    piece = r.read() if ask is None else r.read(ask)
    if piece == '':
      break
    got += piece or ''
  same(got == data, True, 'decrypted %d by %s' % (size, ask))
''')
seed('oaep-seed-per-key', 'C20',
     'two messages encrypted with the same key object',
     'the OAEP seed is drawn once per key object, so equal messages have equal '
     'ciphertexts',
     [(K, """    seed = util.RandBytes(util.HLEN)
""", """    if not hasattr(self, '_seed'):
      self._seed = util.RandBytes(util.HLEN)
    seed = self._seed
""")],
     '''
priv = keys.RsaPrivateKey.Generate(1024)
c = key_set(keyczar.Crypter, keyinfo.DECRYPT_AND_ENCRYPT, [priv])
cts = [c.Encrypt('the same') for _ in range(4)]
for ct in cts:
  same(c.Decrypt(ct), 'the same', 'decrypted')
same(len(set(cts)), 4, 'different ciphertexts')
''')
seed('write-same-length', 'C11',
     'overwriting a key with another of the same length',
     'a file that already has the right length is left alone',
     [(U, """  try:
    f = open(loc, "w")""", """  if os.path.exists(loc) and len(ReadFile(loc)) == len(data):
    return
  try:
    f = open(loc, "w")""")],
     '''
import shutil, tempfile
d = tempfile.mkdtemp()
try:
  w = writers.FileWriter(d)
  for _ in range(3):
    k = keys.HmacKey.Generate()
    g = key_set(keyczar.GenericKeyczar, keyinfo.SIGN_AND_VERIFY, [k])
    g.Write(w)
    r = keyczar.Signer(readers.FileReader(d))
    same(str(r.primary_key), str(k), 'the key')
finally:
  shutil.rmtree(d)
''')
seed('memo-id', 'C24',
     'a session decrypter that is dropped before the next one is made, so that '
     'the new one gets its address',
     'cached crypters are looked up by the addresses of their arguments',
     [(U, """    pickled_args = pickle.dumps((args, sorted(kwargs.items())))
""", """    pickled_args = tuple(id(a) for a in args)
""")],
     '''
c = crypter(keys.AesKey.Generate())
todo = []
for i in range(40):
  e = keyczar.SessionEncrypter(c)
  todo.append((e.session_material, e.Encrypt('message %d' % i),
               'message %d' % i))
for material, ct, text in todo:
  try:
    same(keyczar.SessionDecrypter(c, material).Decrypt(ct), text, 'decrypted')
  except errors.KeyczarError as e:
    raise SystemExit('refused a genuine message: %s' % e)
''')
seed('reader-cache', 'C33',
     'opening the same location twice in one process, with a back end whose '
     'readers are closed after use or whose contents have changed',
     'the first reader for a location is handed out again',
     [(R, """  util.ImportBackends()
  # return the first""", """  util.ImportBackends()
  if location in _READERS:
    return _READERS[location]
  # return the first"""), (R, """    if reader:
      return reader
""", """    if reader:
      _READERS[location] = reader
      return reader
"""), (R, """def CreateReader(location):
""", """_READERS = {}

def CreateReader(location):
""")],
     '''
k = keys.HmacKey.Generate()
g = key_set(keyczar.GenericKeyczar, keyinfo.SIGN_AND_VERIFY, [k])


class Store(readers.Reader):
  def __init__(self):
    self.open = True

  def _get(self, x):
    if not self.open:
      raise SystemExit('a reader that was closed is used again')
    return x

  def GetMetadata(self):
    return self._get(str(g.metadata))

  def GetKey(self, version_number):
    return self._get(str(k))

  def Close(self):
    self.open = False

  @classmethod
  def CreateReader(cls, location):
    if location == 'store:1':
      return cls()


for _ in range(3):
  r = readers.CreateReader('store:1')
  same(str(keyczar.Signer(r).primary_key), str(k), 'the key')
  r.Close()
''')
