"""Signed session encryption."""
import json

from harness import lib
from harness.c24 import Key, pieces, sealed, sets

BOUNDS = {
    'quick': 'AES crypters (all keys), HMAC signers (all keys), RSA and DSA '
             'pool signers; 1 to 3 sessions in one process, messages of '
             'lengths 0..34 and around the constants of the code up to 300, '
             'all contents; any session\'s decrypter given any session\'s '
             'message; another signer; adversarial messages of up to 87 bytes '
             'against 1 or 2 honest sessions with 0 to 2 messages; adversarial '
             'material; long messages around constants up to 70000',
    'thorough': 'as quick, lengths up to 4200, adversarial messages up to 140 '
                'bytes',
}
OUTSIDE = ('two sessions that draw the same random key or nonce; the signer '
           'used outside of sessions with nonces of other lengths')
ASSUMES = ['HMAC-SHA1 is unforgeable', 'RSA and DSA signatures verify and are '
           'unforgeable']
REACH = {'one': ['format', 'message is back'], 'many': ['own', 'foreign'],
         'forge': ['judged'], 'material': ['judged'], 'asym': ['own'],
         'stranger': ['judged']}


def world(ctx, kz, p):
  e, c = sets(ctx, kz, dict(p, type='AES'))
  k = lib.Hmac(ctx, 'sign')
  s = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', [k], ['PRIMARY'])
  v = lib.key_set(kz.keyczar.Verifier, 'VERIFY', [k], ['ACTIVE'])
  return e, c, k, s, v


def unpack(ctx, text, drawn=None):
  d = json.loads(text)
  ctx.check(sorted(d) == ['key', 'nonce'] and d['key']['mode'] == 'CBC' and
            d['key']['size'] == 128 and d['key']['hmacKey']['size'] == 256,
            'format')
  k = Key(ctx, lib.unb64(d['key']['aesKeyString']),
          lib.unb64(d['key']['hmacKey']['hmacKeyString']))
  k.nonce = lib.unb64(d['nonce'])
  ctx.check((len(k.key), len(k.mac), len(k.nonce)) == (16, 32, 16), 'format')
  if drawn is None:
    return k
  ctx.check(ctx.all([pieces(ctx, drawn, k.key, k.mac),
                     pieces(ctx, drawn, k.nonce, k.key),
                     pieces(ctx, drawn, k.nonce, k.mac)]),
            'fresh key and nonce')
  return k


def blob(ctx, sk, ct, nonce):
  return (sk.header() + lib.be4(len(ct)) + ct +
          ctx.hmac(sk.key, ct + lib.be4(len(nonce)) + nonce + '\x00'))


def one(ctx, kz, p):
  lib.use_lib(kz, p['lib'])
  e, c, sk, s, v = world(ctx, kz, p)
  start = len(ctx.draws)
  w = kz.keyczar.SignedSessionEncrypter(e, s)
  drawn = lib.drawn(ctx, start)
  k = unpack(ctx, c.Decrypt(w.session_material), drawn)
  data = lib.msg(ctx, 'data', ctx.choose('n', p['lens']))
  mid = len(ctx.draws)
  m = w.Encrypt(data)
  raw = lib.unb64(m)
  iv = raw[14:30]
  ctx.check(lib.within(ctx, iv, lib.drawn(ctx, mid)), 'fresh vector')
  ctx.check(ctx.eq(raw, blob(ctx, sk, sealed(ctx, k, iv, data), k.nonce)),
            'format')
  r = kz.keyczar.SignedSessionDecrypter(c, v, w.session_material)
  got = r.Decrypt(m)
  ctx.check(got is not None and ctx.eq(got, data), 'message is back')


def distinct(ctx, ks):
  lib.distinct_ids(ctx, ks)
  for i in range(len(ks)):
    for j in range(i):
      ctx.assume(ctx.no(ctx.eq(ks[i].nonce, ks[j].nonce)))


def many(ctx, kz, p):
  e, c, sk, s, v = world(ctx, kz, p)
  n = p['sessions']
  ws, ks = [], []
  for i in range(n):
    start = len(ctx.draws)
    ws.append(kz.keyczar.SignedSessionEncrypter(e, s))
    drawn = lib.drawn(ctx, start)
    ks.append(unpack(ctx, c.Decrypt(ws[-1].session_material), drawn))
  distinct(ctx, ks)
  datas = [ctx.str('d%d' % i, p['len']) for i in range(n)]
  order = list(range(n))
  if p['reverse']:
    order.reverse()
  ms, rs = {}, {}
  for i in order:
    if p['early']:
      rs[i] = kz.keyczar.SignedSessionDecrypter(c, v, ws[i].session_material)
    ms[i] = ws[i].Encrypt(datas[i])
  for i in range(n):
    if i not in rs:
      rs[i] = kz.keyczar.SignedSessionDecrypter(c, v, ws[i].session_material)
  for i in order:
    got = rs[i].Decrypt(ms[i])
    ctx.check(got is not None and ctx.eq(got, datas[i]), 'own')
  a = ctx.choose('reader', range(n))
  b = ctx.choose('writer', range(n))
  if a != b:
    how, got = lib.outcome(lambda: rs[a].Decrypt(ms[b]))
    ctx.check(how == 'error' or got is None, 'foreign', lambda: repr(got))
  got = rs[a].Decrypt(ms[a])
  ctx.check(got is not None and ctx.eq(got, datas[a]), 'own again')


def forge(ctx, kz, p):
  e, c, sk, s, v = world(ctx, kz, p)
  ws, ks = [], []
  done = []
  for i, ns in enumerate(p['honest']):
    w = kz.keyczar.SignedSessionEncrypter(e, s)
    ks.append(unpack(ctx, c.Decrypt(w.session_material)))
    ws.append(w)
    for j, n in enumerate(ns):
      data = ctx.str('d%d.%d' % (i, j), n)
      m = w.Encrypt(data)
      if i == 0:
        done.append((data, lib.unb64(m)))
  distinct(ctx, ks)
  r = kz.keyczar.SignedSessionDecrypter(c, v, ws[0].session_material)
  ctx.end_honest()
  x = ctx.str('x', ctx.choose('len', p['lens']))
  ctx.adversarial(x)
  how, got = lib.outcome(lambda: r.Decrypt(lib.b64(x)))
  ctx.reach('judged')
  if how == 'ok' and got is not None:
    ctx.check(ctx.any([ctx.all([ctx.eq(x, m), ctx.eq(got, d)])
                       for d, m in done]), 'only its own messages')


def stranger(ctx, kz, p):
  """Messages of a session with another signer, or re-signed by one."""
  e, c, sk, s, v = world(ctx, kz, p)
  k2 = lib.Hmac(ctx, 'other')
  ctx.assume(ctx.no(ctx.eq(k2.key, sk.key)))
  s2 = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', [k2], ['PRIMARY'])
  start = len(ctx.draws)
  w = kz.keyczar.SignedSessionEncrypter(e, s)
  k = unpack(ctx, c.Decrypt(w.session_material), lib.drawn(ctx, start))
  r = kz.keyczar.SignedSessionDecrypter(c, v, w.session_material)
  if p['resign']:
    # someone who knows the session but not the signing key
    ct = sealed(ctx, k, ctx.str('iv', 16), ctx.str('data', 4))
    m = s2.AttachedSign(ct, k.nonce)
  else:
    w2 = kz.keyczar.SignedSessionEncrypter(e, s2)
    m = w2.Encrypt(ctx.str('data', 4))
  if p['header']:
    m = lib.b64(sk.header() + lib.unb64(m)[5:])
  else:
    ctx.assume(ctx.no(ctx.eq(sk.id(), k2.id())))
  ctx.end_honest()
  how, got = lib.outcome(lambda: r.Decrypt(m))
  ctx.reach('judged')
  ctx.check(how == 'error' or got is None, 'refused', lambda: repr(got))


def material(ctx, kz, p):
  e, c, sk, s, v = world(ctx, kz, p)
  ws = [kz.keyczar.SignedSessionEncrypter(e, s) for i in range(p['honest'])]
  ctx.end_honest()
  x = ctx.str('x', ctx.choose('len', p['lens']))
  ctx.adversarial(x)
  for w in ws:
    ctx.assume(ctx.no(ctx.eq(x, lib.unb64(w.session_material))))
  how, r = lib.outcome(lambda: kz.keyczar.SignedSessionDecrypter(
      c, v, lib.b64(x)))
  ctx.reach('judged')
  ctx.check(how == 'error', 'only genuine material opens a session')


def asym(ctx, kz, p):
  """Signers with a private key; the reader has the public one."""
  e, c = sets(ctx, kz, dict(p, type='AES', bits=128))
  if p['type'] == 'RSA':
    priv, pub = lib.Rsa(ctx, 1024), lib.Rsa(ctx, 1024, public=True)
  else:
    priv, pub = lib.Dsa(ctx), lib.Dsa(ctx, public=True)
  s = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', [priv], ['PRIMARY'])
  v = lib.key_set(kz.keyczar.Verifier, 'VERIFY', [pub], ['PRIMARY'])
  w = kz.keyczar.SignedSessionEncrypter(e, s)
  data = ctx.str('data', p['n'])
  m = w.Encrypt(data)
  r = kz.keyczar.SignedSessionDecrypter(c, v, w.session_material)
  got = r.Decrypt(m)
  ctx.check(got is not None and ctx.eq(got, data), 'own')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(300, 35) if quick else lib.lengths(4200, 101)
  for j, ch in enumerate(lib.chunks(lens, 10)):
    out.append({'name': 'one-%d' % j, 'fn': 'one', 'weight': 4,
                'params': {'bits': (128, 256)[j % 2],
                           'lib': lib.LIBS[j % 2], 'lens': ch}})
  for j, ch in enumerate(lib.long_chunks(300, 4) if quick else []):
    out.append({'name': 'long-%d' % j, 'fn': 'one', 'weight': 4,
                'params': {'bits': (128, 256)[j % 2],
                           'lib': lib.LIBS[j % 2], 'lens': ch}})
  for n, rev, early in ((2, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1),
                        (3, 0, 0), (3, 1, 1)):
    out.append({'name': 'many-%d-%d-%d' % (n, rev, early), 'fn': 'many',
                'weight': 6, 'params': {
                    'bits': 128, 'sessions': n, 'len': 5,
                    'reverse': rev, 'early': early}})
  for i, h in enumerate(([[3]], [[3], [3]], [[], [4]], [[0, 20], [5]])):
    for j, ch in enumerate(lib.chunks(
        ([0, 29, 85, 86, 87] if i == 0 else [40, 86]) if quick
        else range(141), 2)):
      out.append({'name': 'forge-%d-%d' % (i, j), 'fn': 'forge', 'weight': 5,
                  'params': {'bits': 128, 'honest': h, 'lens': ch}})
  for resign in (0, 1):
    for header in (0, 1):
      out.append({'name': 'stranger-%d-%d' % (resign, header),
                  'fn': 'stranger', 'weight': 2,
                  'params': {'bits': 128, 'resign': resign,
                             'header': header}})
  for h in (0, 1):
    out.append({'name': 'material-%d' % h, 'fn': 'material', 'weight': 4,
                'params': {'bits': 128, 'honest': h, 'lens':
                           [0, 41, 57, 89, 200, 233, 249, 265]}})
  for t in ('RSA', 'DSA'):
    out.append({'name': 'asym-' + t, 'fn': 'asym', 'weight': 4,
                'limits': {'lead': 1}, 'params': {'type': t, 'n': 7}})
  return out
