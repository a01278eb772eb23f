"""Only the primary key makes output."""
from harness import lib

BOUNDS = {
    'quick': 'key sets of 0 to 4 keys in any order of version numbers from a '
             'list, every status assignment, all key bytes (AES, HMAC), RSA '
             'and DSA pool keys in sets of 1 to 3; messages of length 0 and 5 '
             'with all byte values',
    'thorough': 'as quick, sets of up to 6 keys',
}
OUTSIDE = 'larger sets, key-id collisions'
REACH = {'crypt': ['primary', 'nothing'], 'sign': ['primary', 'nothing'],
         'several': ['refused']}
S = ('PRIMARY', 'ACTIVE', 'INACTIVE')


class Out(object):
  def __init__(self):
    self.data = ''

  def write(self, s):
    self.data += s

  def flush(self):
    pass


def statuses(ctx, n):
  return lib.some_statuses(ctx, 's', n)


def nobody(ctx, kz, fn):
  how, e = lib.outcome(fn)
  ctx.check(how == 'error' and isinstance(e, kz.errors.NoPrimaryKeyError),
            'no output without a primary', lambda: '%s %r' % (how, e))


def crypt(ctx, kz, p):
  nums = p['numbers']
  mk = {'AES': lambda i: lib.Aes(ctx, 'k%d' % i),
        'RSA': lambda i: lib.Rsa(ctx, 1024, i),
        'RSAPUB': lambda i: lib.Rsa(ctx, 1024, i, public=True)}[p['type']]
  ks = [mk(i) for i in range(len(nums))]
  lib.distinct_ids(ctx, ks)
  st = statuses(ctx, len(ks))
  data = ctx.str('data', p['n'])
  purpose = 'ENCRYPT' if p['type'] == 'RSAPUB' else 'DECRYPT_AND_ENCRYPT'
  full = p['type'] != 'RSAPUB'
  o = lib.key_set(kz.keyczar.Crypter if full else kz.keyczar.Encrypter,
                  purpose, ks, st, nums,
                  'AES' if p['type'] == 'AES' else None)
  prim = [k for k, s in zip(ks, st) if s == 'PRIMARY']
  out = Out()
  if prim:
    ctx.reach('primary')
    ct = o.Encrypt(data, encoder=None)
    ctx.check(ctx.eq(ct[:5], prim[0].header()), 'primary encrypts')
    ctx.check(ctx.eq(lib.unb64(o.Encrypt(data))[:5], prim[0].header()),
              'primary encrypts')
    if p['type'] == 'AES':
      one = lib.key_set(kz.keyczar.Crypter, purpose, prim, ['ACTIVE'])
      ctx.check(ctx.eq(one.Decrypt(ct, decoder=None), data),
                'by the primary alone')
      w = o.CreateEncryptingStreamWriter(out, None)
      w.write(data)
      w.flush()
      ctx.check(ctx.eq(out.data[:5], prim[0].header()), 'primary streams')
      ctx.check(ctx.eq(one.Decrypt(out.data, decoder=None), data),
                'by the primary alone')
  else:
    ctx.reach('nothing')
    nobody(ctx, kz, lambda: o.Encrypt(data))
    nobody(ctx, kz, lambda: o.Encrypt(data, encoder=None))
    if p['type'] == 'AES':
      nobody(ctx, kz, lambda: o.CreateEncryptingStreamWriter(out))
      nobody(ctx, kz, lambda: o.CreateEncryptingStreamWriter(out, None))
      ctx.check(out.data == '', 'no output without a primary')
      if ks:
        i = ctx.choose('old', range(len(ks)))
        iv = ctx.str('iv', 16)
        pad = 16 - p['n'] % 16
        body = ks[i].header() + iv + ctx.cbc(ks[i].key, iv,
                                             data + chr(pad) * pad)
        ctx.check(ctx.eq(o.Decrypt(lib.b64(body + ctx.hmac(ks[i].mac, body))),
                         data), 'still decrypts')


def sign(ctx, kz, p):
  nums = p['numbers']
  mk = {'HMAC': lambda i: lib.Hmac(ctx, 'k%d' % i),
        'RSA': lambda i: lib.Rsa(ctx, 1024, i),
        'DSA': lambda i: lib.Dsa(ctx, i)}[p['type']]
  ks = [mk(i) for i in range(len(nums))]
  lib.distinct_ids(ctx, ks)
  st = statuses(ctx, len(ks))
  data = ctx.str('data', p['n'])
  nonce = ctx.str('nonce', 2)
  t = 'HMAC_SHA1' if p['type'] == 'HMAC' else None
  o = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', ks, st, nums, t)
  u = lib.key_set(kz.keyczar.UnversionedSigner, 'SIGN_AND_VERIFY', ks, st,
                  nums, t)
  prim = [k for k, s in zip(ks, st) if s == 'PRIMARY']
  packed = lib.be4(2) + nonce
  if prim:
    ctx.reach('primary')
    k = prim[0]
    if p['type'] == 'HMAC':
      ctx.check(ctx.eq(lib.unb64(o.Sign(data)),
                       k.header() + ctx.hmac(k.key, data + '\x00')),
                'primary signs')
      ctx.check(ctx.eq(o.AttachedSign(data, nonce, encoder=None),
                       k.header() + lib.be4(len(data)) + data +
                       ctx.hmac(k.key, data + packed + '\x00')),
                'primary signs attached')
      ctx.check(ctx.eq(u.Sign(data, encoder=None), ctx.hmac(k.key, data)),
                'primary signs unversioned')
    else:
      one = lib.key_set(kz.keyczar.Verifier, 'VERIFY', [k], ['ACTIVE'])
      kind = ctx.choose('kind', ['plain', 'unversioned', 'attached'])
      if kind == 'plain':
        sig = o.Sign(data, encoder=None)
        ctx.check(ctx.eq(sig[:5], k.header()), 'primary signs')
        ctx.check(one.Verify(data, sig, decoder=None), 'by the primary alone')
      elif kind == 'unversioned':
        uone = lib.key_set(kz.keyczar.UnversionedVerifier, 'VERIFY', [k],
                           ['ACTIVE'])
        ctx.check(uone.Verify(data, u.Sign(data, encoder=None), decoder=None),
                  'by the primary alone')
      else:
        sig = o.AttachedSign(data, nonce, encoder=None)
        ctx.check(ctx.eq(sig[:5], k.header()), 'primary signs attached')
        ctx.check(ctx.eq(one.AttachedVerify(sig, nonce, decoder=None), data),
                  'by the primary alone')
  else:
    ctx.reach('nothing')
    nobody(ctx, kz, lambda: o.Sign(data))
    nobody(ctx, kz, lambda: o.Sign(data, encoder=None))
    nobody(ctx, kz, lambda: o.AttachedSign(data, nonce))
    nobody(ctx, kz, lambda: o.AttachedSign(data, nonce, encoder=None))
    nobody(ctx, kz, lambda: u.Sign(data))
    if ks and p['type'] == 'HMAC':
      i = ctx.choose('old', range(len(ks)))
      k = ks[i]
      ctx.check(o.Verify(data, lib.b64(
          k.header() + ctx.hmac(k.key, data + '\x00'))), 'still verifies')
      ctx.check(ctx.eq(o.AttachedVerify(
          k.header() + lib.be4(len(data)) + data +
          ctx.hmac(k.key, data + packed + '\x00'), nonce, decoder=None), data),
          'still verifies')
      ctx.check(u.Verify(data, lib.b64(ctx.hmac(k.key, data))),
                'still verifies')


def several(ctx, kz, p):
  nums = p['numbers']
  ks = [lib.Hmac(ctx, 'k%d' % i) for i in range(len(nums))]
  if p['crypt']:
    ks = [lib.Aes(ctx, 'k%d' % i) for i in range(len(nums))]
  lib.distinct_ids(ctx, ks)
  st = [ctx.choose('s%d' % i, S) for i in range(len(nums))]
  m = len([s for s in st if s == 'PRIMARY'])
  for cls in ([kz.keyczar.Encrypter, kz.keyczar.Crypter] if p['crypt'] else
              [kz.keyczar.Signer, kz.keyczar.Verifier,
               kz.keyczar.UnversionedSigner, kz.keyczar.UnversionedVerifier]
              ) + [kz.keyczar.GenericKeyczar]:
    how, e = lib.outcome(lambda: lib.key_set(
        cls, 'DECRYPT_AND_ENCRYPT' if p['crypt'] else 'SIGN_AND_VERIFY', ks,
        st, nums))
    if m > 1:
      ctx.reach('refused')
      ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
                'several primaries are refused')
    else:
      ctx.check(how == 'ok', 'at most one primary is accepted',
                lambda: repr(e))
      want = [n for n, s in zip(nums, st) if s == 'PRIMARY']
      ctx.check((e.primary_version.version_number
                 if e.primary_version is not None else None) ==
                (want[0] if want else None), 'which one')


NUMS = ([1], [1, 2], [2, 1], [1, 2, 3], [3, 1, 2], [2, 5, 11],
        [1, 2, 3, 4], [7, 2, 10, 1])


def instances(tier):
  quick = tier == 'quick'
  out = []
  sets = NUMS + (() if quick else ([1, 2, 3, 4, 5], [6, 5, 4, 3, 2, 1]))
  for nums in sets:
    tag = '+'.join(map(str, nums))
    for n in (0, 5) if len(nums) < 3 else (5,):
      out.append({'name': 'aes-%s-%d' % (tag, n), 'fn': 'crypt',
                  'weight': 2 ** len(nums),
                  'params': {'type': 'AES', 'numbers': nums, 'n': n}})
      out.append({'name': 'hmac-%s-%d' % (tag, n), 'fn': 'sign',
                  'weight': 2 ** len(nums),
                  'params': {'type': 'HMAC', 'numbers': nums, 'n': n}})
    if len(nums) in (2, 3):
      for c in (True, False):
        out.append({'name': 'several-%s-%s' % (tag, c), 'fn': 'several',
                    'weight': 3 ** len(nums) / 2,
                    'params': {'numbers': nums, 'crypt': c}})
    if len(nums) < 4:
      for t, f in (('RSA', 'crypt'), ('RSAPUB', 'crypt'), ('RSA', 'sign'),
                   ('DSA', 'sign')):
        if len(nums) == 3 and (f == 'sign' or t == 'RSAPUB') and quick:
          continue
        out.append({'name': '%s-%s-%s' % (t, f, tag), 'fn': f,
                    'weight': 2 ** len(nums), 'limits': {'lead': 1},
                    'params': {'type': t, 'numbers': nums, 'n': 5}})
  for t, f in (('AES', 'crypt'), ('HMAC', 'sign')):
    out.append({'name': 'empty-%s' % t, 'fn': f, 'reach': ['nothing'],
                'params': {'type': t, 'numbers': [], 'n': 1}})
  return out
