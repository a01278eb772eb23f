"""Replay of a counterexample on the unmodified code, in its own process.

usage: python -m sx.replay FILE (real|standin)

'real': the libraries' own primitives; random draws, key generation and the
AES block cipher of PyCrypto (whose extension module is not built here) are
supplied.  'standin': hash, HMAC, AES, RSA and DSA values are looked up in the
counterexample and otherwise computed.
"""
import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sx import backend, context, fakes, models, sym  # noqa: E402

REPO = os.environ.get('SX_REPO', '/repo')


class Hang(BaseException):
  pass


def _alarm(*a):
  raise Hang()


def setup(ctx, standin, table):
  import hashlib
  import hmac
  import random
  import secrets
  if not hasattr(time, 'clock'):
    time.clock = time.perf_counter
  sys.modules['simplejson'] = None
  if standin:
    backend.TABLE = table
    ms = fakes.modules()
    sys.modules.update({n: m for n, m in ms.items()
                        if not n.startswith('pyasn1')})
    ctx.construct = {'rsa': fakes.RSAKey, 'dsa': fakes.DSAKey}
    for alg in models.ALGS:
      setattr(hashlib, alg, models._hash_ctor(alg))
    hashlib.new = models.m_hashlib_new
    hmac.new = hmac.HMAC = models._hmac_new
    hmac.digest = models.m_hmac_digest
  else:
    import Crypto.Cipher.AES as AES
    import Crypto.PublicKey.RSA as RSA
    import Crypto.PublicKey.DSA as DSA
    import Crypto.Random
    # its generator needs the AES extension module
    read = os.urandom
    rng = type('Rng', (), {'read': staticmethod(lambda n: read(n))})
    Crypto.Random.new = lambda *a, **k: rng
    Crypto.Random.get_random_bytes = rng.read
    AES.new = fakes.aes_new
    ctx.construct = {'rsa': RSA.construct, 'dsa': DSA.construct}
    sign = DSA._DSAobj.sign

    def spy(self, M, K):
      ctx.secret_event(K if isinstance(K, int) else
                       int.from_bytes(K, 'big'))
      return sign(self, M, K)
    DSA._DSAobj.sign = spy
    RSA.generate = lambda bits, r=None, *a, **k: ctx.generate('rsa', bits, r)
    DSA.generate = lambda bits, r=None, *a, **k: ctx.generate('dsa', bits, r)
  os.urandom = lambda n: ctx.draw('os', n)
  secrets.token_bytes = lambda n=32: ctx.draw('os', n)
  random.SystemRandom = models.FakeSystemRandom
  for name in ('random', 'randint', 'randrange', 'getrandbits', 'choice',
               'randbytes', 'uniform', 'sample', 'shuffle'):
    if hasattr(random, name):
      setattr(random, name, models._random_method(random._inst, name))
  random.Random = models.FakeRandom


def contain(tmp):
  """Refuse changes outside the scratch directory, and other programs."""
  tmp = os.path.realpath(tmp)
  flags = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
  paths = {'os.remove': 1, 'os.rmdir': 1, 'os.mkdir': 1, 'os.rename': 2,
           'os.link': 2, 'os.symlink': 2, 'os.truncate': 1, 'os.chmod': 1,
           'os.chown': 1, 'os.utime': 1, 'shutil.rmtree': 1,
           'shutil.move': 2}
  deny = ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn',
          'os.fork', 'os.kill', 'os.killpg', 'socket.connect', 'os.startfile')

  def inside(p):
    if isinstance(p, int):
      return True
    p = os.fsdecode(p)
    if not os.path.isabs(p) and not contain.on:
      return True
    return (p == '/dev/null' or
            os.path.realpath(os.path.dirname(os.path.abspath(p))).startswith(
                tmp))

  def hook(event, args):
    if event in deny:
      raise PermissionError(event + ' in a replay')
    if event == 'open':
      path, mode, fl = args
      if (isinstance(mode, str) and any(c in mode for c in 'wax+') or
          mode is None and isinstance(fl, int) and fl & flags) and \
          not inside(path):
        raise PermissionError('replay writes %r' % (path,))
    elif event in paths and contain.on:
      for p in args[:paths[event]]:
        if not inside(p):
          raise PermissionError('%s of %r in a replay' % (event, p))
  contain.on = True
  sys.addaudithook(hook)


def run(spec, standin, tmp):
  inst = spec['instance']
  draws = [tuple(d) for d in spec['draws']]
  ctx = context.RealCtx(inst['params'], spec['inputs'], draws, standin, tmp)
  table = {}
  for name, args, w, v in spec['ufs']:
    table[(name, tuple((int(a, 16), aw) for a, aw in args), w)] = int(v, 16)
  setup(ctx, standin, table)
  os.makedirs(os.path.join(tmp, 'cwd'))
  os.chdir(os.path.join(tmp, 'cwd'))
  contain(tmp)
  sys.path.insert(0, os.path.join(REPO, 'python', 'src'))
  sys.path.insert(0, os.path.join(REPO, 'interop'))
  import builtins
  real_print = builtins.print
  builtins.print = lambda *a, **k: ctx.printed.append(
      ' '.join(str(x) for x in a))
  sym.CUR = ctx
  signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, spec.get('hang_s', 20))
  out = {'status': 'held'}
  try:
    try:
      ns = type('Namespace', (), {})()
      if inst.get('interop'):
        ns.interop = importlib.import_module('interop')
      else:
        for n in ('errors', 'keyinfo', 'util', 'keydata', 'keys', 'keyczar',
                  'readers', 'writers', 'keyczart'):
          setattr(ns, n, importlib.import_module('keyczar.' + n))
      h = importlib.import_module('harness.' + inst['module'])
      getattr(h, inst['fn'])(ctx, ns, inst['params'])
    finally:
      signal.setitimer(signal.ITIMER_REAL, 0)
  except sym.PathAbort:
    out = {'status': 'aborted'}
  except sym.PathStop:
    out = {'status': 'violated', 'label': ctx.failed[0],
           'detail': str(ctx.failed[1])[:500]}
  except Hang:
    out = {'status': 'hang'}
  except sym.Signal as e:
    out = {'status': 'unsupported', 'detail': repr(e)}
  except (Exception, SystemExit) as e:
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1].filename if tb else ''
    out = {'status': 'exception', 'type': type(e).__name__,
           'detail': traceback.format_exc()[-1500:],
           'engine': last.startswith(os.path.join(VERIF, 'sx')) and
                     os.path.basename(last) not in ('fakes.py', 'models.py')}
  out['reached'] = ctx.reached
  builtins.print = real_print
  sys.stderr.flush()
  sys.__stdout__.write('\nREPLAY ' + json.dumps(out) + '\n')
  sys.__stdout__.flush()


def main(argv):
  with open(argv[0]) as f:
    spec = json.load(f)
  with tempfile.TemporaryDirectory(prefix='sxreplay') as tmp:
    try:
      run(spec, argv[1] == 'standin', tmp)
    finally:
      contain.on = False
      os.chdir('/')


if __name__ == '__main__':
  main(sys.argv[1:])
