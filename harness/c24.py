"""Session encryption."""
from harness import lib

BOUNDS = {
    'quick': 'AES crypters of 128 and 256 bits (all keys) and RSA pool keys of '
             '1024 and 2048 bits; 1 to 3 sessions in one process, messages of '
             'lengths 0..34 and around the constants of the code up to 300, '
             'all contents; any session\'s decrypter given any session\'s '
             'message; adversarial material of lengths 0..140 and messages of '
             'lengths 0..97; genuine ciphertexts of other data as material '
             '(lengths 0..20); long messages around constants up to 70000; '
             'sessions one after the other, each forgotten before the next',
    'thorough': 'as quick, lengths up to 4200, adversarial material up to 200 '
                'bytes, three honest sessions',
}
OUTSIDE = ('two sessions that draw the same random key; RSA pool keys only; '
           'unauthenticated RSA material (anyone can make it)')
ASSUMES = ['HMAC-SHA1 is unforgeable', 'RSA: the private operation undoes the '
           'public one']
REACH = {'one': ['format', 'message is back'], 'many': ['own', 'foreign'],
         'dropped': ['its key'],
         'material': ['judged'], 'message': ['judged'], 'data': ['judged']}


def pieces(ctx, whole, a, b):
  """Do a and b lie in disjoint places of whole?"""
  out = []
  for i in range(len(whole) - len(a) + 1):
    rest = [ctx.eq(b, whole[j:j + len(b)])
            for j in range(len(whole) - len(b) + 1)
            if j + len(b) <= i or j >= i + len(a)]
    if rest:
      out.append(ctx.all([ctx.eq(a, whole[i:i + len(a)]), ctx.any(rest)]))
  return ctx.any(out)


def sets(ctx, kz, p, name='k'):
  if p['type'] == 'RSA':
    k = lib.Rsa(ctx, p['bits'])
    e = lib.key_set(kz.keyczar.Encrypter, 'ENCRYPT',
                    [lib.Rsa(ctx, p['bits'], public=True)], ['PRIMARY'])
  else:
    k = lib.Aes(ctx, name, p['bits'])
    e = lib.key_set(kz.keyczar.Encrypter, 'DECRYPT_AND_ENCRYPT', [k],
                    ['PRIMARY'])
  return e, lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k],
                        ['PRIMARY'])


class Key(lib.Aes):
  """A session key."""

  def __init__(self, ctx, key, mac):
    self.key, self.mac, self.ctx = key, mac, ctx


def unpack(ctx, packed, drawn):
  ctx.check(len(packed) == 60, 'format')
  ctx.check(ctx.eq(packed[:8] + packed[24:28], lib.be4(2) + lib.be4(16) +
                   lib.be4(32)), 'format')
  k = Key(ctx, packed[8:24], packed[28:])
  ctx.check(pieces(ctx, drawn, k.key, k.mac), 'fresh key')
  return k


def sealed(ctx, k, iv, data):
  pad = 16 - len(data) % 16
  body = k.header() + iv + ctx.cbc(k.key, iv, data + chr(pad) * pad)
  return body + ctx.hmac(k.mac, body)


def one(ctx, kz, p):
  lib.use_lib(kz, p['lib'])
  e, c = sets(ctx, kz, p)
  start = len(ctx.draws)
  s = kz.keyczar.SessionEncrypter(e)
  drawn = lib.drawn(ctx, start)
  k = unpack(ctx, c.Decrypt(s.session_material), drawn)
  data = lib.msg(ctx, 'data', ctx.choose('n', p['lens']))
  mid = len(ctx.draws)
  raw = s.Encrypt(data, None)
  text = s.Encrypt(data)
  ctx.check(lib.within(ctx, raw[5:21], lib.drawn(ctx, mid)), 'fresh vector')
  ctx.check(ctx.eq(raw, sealed(ctx, k, raw[5:21], data)), 'format')
  both = lib.unb64(text)
  ctx.check(ctx.eq(both, sealed(ctx, k, both[5:21], data)), 'format')
  d = kz.keyczar.SessionDecrypter(c, s.session_material)
  ctx.check(ctx.eq(d.Decrypt(text), data), 'message is back')
  ctx.check(ctx.eq(d.Decrypt(raw, None), data), 'message is back raw')


def many(ctx, kz, p):
  """Several sessions at once."""
  e, c = sets(ctx, kz, p)
  n = p['sessions']
  ss = []
  ks = []
  for i in range(n):
    start = len(ctx.draws)
    ss.append(kz.keyczar.SessionEncrypter(e))
    drawn = lib.drawn(ctx, start)
    ks.append(unpack(ctx, c.Decrypt(ss[-1].session_material), drawn))
  lib.distinct_ids(ctx, ks)
  datas = [ctx.str('d%d' % i, p['len']) for i in range(n)]
  order = list(range(n))
  if p['reverse']:
    order.reverse()
  ms = {}
  ds = {}
  for i in order:
    if p['early']:
      ds[i] = kz.keyczar.SessionDecrypter(c, ss[i].session_material)
    ms[i] = ss[i].Encrypt(datas[i])
  for i in range(n):
    if i not in ds:
      ds[i] = kz.keyczar.SessionDecrypter(c, ss[i].session_material)
  for i in order:
    ctx.check(ctx.eq(ds[i].Decrypt(ms[i]), datas[i]), 'own')
  a = ctx.choose('reader', range(n))
  b = ctx.choose('writer', range(n))
  if a != b:
    how, r = lib.outcome(lambda: ds[a].Decrypt(ms[b]))
    ctx.check(how == 'error', 'foreign', lambda: repr(r))
  ctx.check(ctx.eq(ds[a].Decrypt(ms[a]), datas[a]), 'own again')


def dropped(ctx, kz, p):
  """One session after the other, each forgotten before the next."""
  e, c = sets(ctx, kz, p)
  seen = []
  for i in range(p['sessions']):
    data = ctx.str('d%d' % i, p['len'])
    start = len(ctx.draws)
    s = kz.keyczar.SessionEncrypter(e)
    k = unpack(ctx, c.Decrypt(s.session_material), lib.drawn(ctx, start))
    seen.append(k)
    lib.distinct_ids(ctx, seen)
    m = s.Encrypt(data)
    ctx.check(ctx.eq(lib.unb64(m)[:5], k.header()), 'its key')
    mat = s.session_material
    s = None
    if p['reader']:
      s = kz.keyczar.SessionDecrypter(c, mat)
      ctx.check(ctx.eq(s.Decrypt(m), data), 'own')
      s = None


def material(ctx, kz, p):
  """Material that was not made by a session."""
  e, c = sets(ctx, kz, p)
  ss = [kz.keyczar.SessionEncrypter(e) for i in range(p['honest'])]
  ctx.end_honest()
  x = ctx.str('x', ctx.choose('len', p['lens']))
  ctx.adversarial(x)
  how, r = lib.outcome(lambda: kz.keyczar.SessionDecrypter(c, lib.b64(x)))
  ctx.reach('judged')
  if how == 'ok':
    ctx.check(ctx.any([ctx.eq(x, lib.unb64(s.session_material)) for s in ss]),
              'only genuine material opens a session')


def message(ctx, kz, p):
  """Messages that no session with this material made."""
  e, c = sets(ctx, kz, p)
  s = kz.keyczar.SessionEncrypter(e)
  data = ctx.str('data', p['n'])
  m = s.Encrypt(data, None)
  d = kz.keyczar.SessionDecrypter(c, s.session_material)
  ctx.end_honest()
  x = ctx.str('x', ctx.choose('len', p['lens']))
  ctx.adversarial(x)
  how, r = lib.outcome(lambda: d.Decrypt(x, None))
  ctx.reach('judged')
  if how == 'ok':
    ctx.check(ctx.all([ctx.eq(x, m), ctx.eq(r, data)]),
              'only its own messages')


def data(ctx, kz, p):
  """Other data under the crypter, presented as material."""
  e, c = sets(ctx, kz, p)
  x = ctx.str('x', ctx.choose('n', p['lens']))
  ct = e.Encrypt(x)
  how, d = lib.outcome(lambda: kz.keyczar.SessionDecrypter(c, ct))
  ctx.reach('judged')
  if how == 'ok':
    # it has to be two byte arrays
    ctx.check(len(x) >= 12, 'packed keys')
    n = ctx.num(x[4:8])
    ctx.check(n <= len(x) - 12, 'packed keys')
    n = int(n)
    ctx.check(ctx.num(x[8 + n:12 + n]) == len(x) - 12 - n, 'packed keys')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(300, 35) if quick else lib.lengths(4200, 101)
  for j, ch in enumerate(lib.chunks(lens, 10)):
    out.append({'name': 'one-aes-%d' % j, 'fn': 'one', 'weight': 4,
                'params': {'type': 'AES', 'bits': (128, 256)[j % 2],
                           'lib': lib.LIBS[j % 2], 'lens': ch}})
  for j, ch in enumerate(lib.long_chunks(300, 4) if quick else []):
    out.append({'name': 'long-%d' % j, 'fn': 'one', 'weight': 4,
                'params': {'type': 'AES', 'bits': (128, 256)[j % 2],
                           'lib': lib.LIBS[j % 2], 'lens': ch}})
  for bits in (1024, 2048):
    out.append({'name': 'one-rsa-%d' % bits, 'fn': 'one', 'weight': 8,
                'limits': {'lead': 1},
                'params': {'type': 'RSA', 'bits': bits, 'lib': 'm2crypto',
                           'lens': [0, 17]}})
  for n, r in ((2, 0), (2, 1), (3, 0), (3, 1)):
    out.append({'name': 'dropped-%d-%d' % (n, r), 'fn': 'dropped',
                'weight': 5, 'params': {
                    'type': 'AES', 'bits': 128, 'sessions': n, 'len': 5,
                    'reader': r}})
  for n, rev, early in ((2, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1),
                        (3, 0, 0), (3, 1, 1)):
    out.append({'name': 'many-%d-%d-%d' % (n, rev, early), 'fn': 'many',
                'weight': 6, 'params': {
                    'type': 'AES', 'bits': 128, 'sessions': n, 'len': 5,
                    'reverse': rev, 'early': early}})
  for j, ch in enumerate(lib.chunks(
      [0, 4, 5, 24, 41, 57, 73, 89, 104, 105, 106, 120, 121, 137, 140]
      if quick else range(201), 5)):
    for h in (0, 1, 2) if quick else (0, 1, 3):
      out.append({'name': 'material-%d-%d' % (h, j), 'fn': 'material',
                  'weight': 4, 'params': {'type': 'AES', 'bits': 128,
                                          'honest': h, 'lens': ch}})
  for j, ch in enumerate(lib.chunks(
      [0, 5, 41, 56, 57, 58, 73, 97] if quick else range(150), 4)):
    out.append({'name': 'message-%d' % j, 'fn': 'message', 'weight': 3,
                'params': {'type': 'AES', 'bits': 128, 'n': 3, 'lens': ch}})
  for j, ch in enumerate(lib.chunks(range(21) if quick else range(33), 5)):
    out.append({'name': 'data-%d' % j, 'fn': 'data', 'weight': 3,
                'params': {'type': 'AES', 'bits': 128, 'lens': ch}})
  return out
