"""Models of builtins and library functions on symbolic values, and the hooks
that the instrumented code calls."""
import base64
import binascii
import builtins
import codecs
import collections
import copy
import functools
import hashlib
import hmac
import importlib
import io
import itertools
import json
import math
import operator
import os
import os.path
import pickle
import random
import re
import secrets
import string
import struct
import subprocess
import sys
import time
import types
import weakref
import warnings

from . import backend
from . import sym
from . import terms as tm
from .sym import (SymBool, SymInt, SymStr, SymBytes, LazyStr, SDict, is_sym,
                  deep_sym, els_of, mkstr, mkbytes, mkint, mkbool, pack, unpack,
                  is_in, mask_of, bterm, PathUnknown, SYM_TYPES, Signal)

MODELS = {}         # builtin or function -> model
BY_NAME = {}        # (class, method name) -> model of a class-bound builtin


def model(*fs):
  def deco(m):
    for f in fs:
      MODELS[f] = m
    return m
  return deco


def plain(x):
  """Force a lazily formatted string; other values unchanged."""
  if type(x) is LazyStr:
    return mkstr(x.els)
  return x


def native(x, why):
  x = plain(x)
  return sym.CUR.pin(x, why) if deep_sym(x) else x


# --------------------------------------------------------------- dispatching

SAFE_SELF = (list, tuple, collections.deque, set, frozenset, dict,
             types.GeneratorType)
EXC_NAMES = ('__init__', '__new__')


def sx_call(f, *a, **k):
  c = sym.CUR
  if c is None:
    return f(*a, **k)
  tf = type(f)
  if tf is types.FunctionType or tf is types.MethodType:
    if c.stubs:
      s = c.stubs.get(f if tf is types.FunctionType else f.__func__)
      if s is not None:
        return s(*a, **k)
    m = MODELS.get(f) if tf is types.FunctionType else None
    if m is None and tf is types.MethodType:
      m = _method_model(f)
    if m is not None:
      return m(*a, **k)
    return f(*a, **k)
  if tf in SYM_TYPES:
    raise TypeError("'%s' object is not callable" % f.__class__.__name__)
  try:
    m = MODELS.get(f)
    if c.stubs:
      m = c.stubs.get(f, m)
  except TypeError:
    m = None
  if m is not None:
    return m(*a, **k)
  if tf is types.BuiltinFunctionType:     # functions and bound C methods
    return call_builtin(c, f, a, k)
  if tf is types.MethodDescriptorType or tf is types.ClassMethodDescriptorType:
    return call_descriptor(c, f, a, k)
  if tf is types.WrapperDescriptorType or tf is types.MethodWrapperType:
    return f(*a, **k)
  if isinstance(f, type):
    if issubclass(f, BaseException) or f.__module__ not in C_TYPES:
      return f(*a, **k)
    if any(map(deep_sym, a)) or any(map(deep_sym, k.values())):
      if f in (list, tuple, set, frozenset, enumerate, zip, reversed, iter,
               slice, range, collections.deque, property, staticmethod,
               classmethod, super, object, itertools.chain, itertools.count,
               itertools.cycle, itertools.repeat, itertools.islice,
               itertools.product, itertools.zip_longest, itertools.compress,
               itertools.permutations, itertools.combinations,
               collections.OrderedDict, collections.defaultdict):
        return f(*a, **k)
      return f(*[native(x, f.__name__) for x in a],
               **{n: native(x, f.__name__) for n, x in k.items()})
    return f(*a, **k)
  return f(*a, **k)


C_TYPES = ('builtins', 'itertools', 'collections', 'functools', 'operator')


def _method_model(f):
  s = f.__self__
  if isinstance(s, random.Random):
    return _random_method(s, f.__name__)
  return None


def _syms(a, k):
  return any(map(deep_sym, a)) or any(map(deep_sym, k.values()))


def call_builtin(c, f, a, k):
  s = f.__self__
  name = f.__name__
  if s is None or isinstance(s, types.ModuleType):
    if not _syms(a, k):
      return f(*a, **k)
    mod = f.__module__ or ''
    if f in SAFE_FUNCS:
      return f(*a, **k)
    return f(*[native(x, mod + '.' + name) for x in a],
             **{n: native(x, name) for n, x in k.items()})
  ts = type(s)
  if isinstance(s, type):
    m = BY_NAME.get((s, name))
    if m is not None:
      return m(*a, **k)
    if _syms(a, k):
      return f(*[native(x, name) for x in a],
               **{n: native(x, name) for n, x in k.items()})
    return f(*a, **k)
  if ts is str or ts is bytes:
    if name == 'join' and a:
      items = list(a[0])
      if any(map(is_sym, items)):
        return sym.join(s, items)
      return f(items)
    if name == 'format' and ts is str:
      return str_format(s, a, k)
    if not _syms(a, k):
      return f(*a, **k)
    lifted = SymStr(els_of(s)) if ts is str else SymBytes(els_of(s))
    return getattr(lifted, name)(*a, **k)
  if ts is int and _syms(a, k):
    return f(*[native(x, name) for x in a])
  if ts is list:
    if name == 'sort':
      s[:] = m_sorted(s, **k)
      return None
    return f(*a, **k)
  if isinstance(s, dict) and ts is not SDict:
    if _syms(a[:1], {}) and name in ('get', 'pop', 'setdefault',
                                     '__getitem__', '__contains__'):
      return _dict_method(s, name, a)
    return f(*a, **k)
  if isinstance(s, (set, frozenset)) and ts is not sym.SSet and _syms(a, k):
    if name == '__contains__':
      return sx_in(a[0], s)
    if name in ('add', 'discard', 'remove') and is_sym(a[0]):
      for y in s:
        if y == a[0]:
          return getattr(s, name)(y)
      if name == 'discard':
        return None
    return f(*[native(x, 'set.' + name) for x in a])
  if isinstance(s, SAFE_SELF):
    return f(*a, **k)
  if isinstance(s, random.Random):
    return _random_method(s, name)(*a, **k)
  if isinstance(s, re.Pattern) and _syms(a, k):
    return f(*[native(x, 're.' + name) for x in a], **k)
  if isinstance(s, (io.StringIO, io.BytesIO)) and _syms(a, k):
    return f(*[native(x, 'io.' + name) for x in a], **k)
  if isinstance(s, struct.Struct):
    if name == 'pack':
      return struct_pack(s.format, *a)
    if name == 'unpack':
      return struct_unpack(s.format, *a)
    if name == 'unpack_from':
      return struct_unpack_from(s.format, *a, **k)
  if _syms(a, k):
    return f(*[native(x, name) for x in a],
             **{n: native(x, name) for n, x in k.items()})
  return f(*a, **k)


def _dict_method(s, name, a):
  for key in list(s):
    if key == a[0]:
      return getattr(s, name)(key, *a[1:])
  if name == '__contains__':
    return False
  if name == 'get':
    return a[1] if len(a) > 1 else None
  if name == 'pop' and len(a) > 1:
    return a[1]
  if name == 'setdefault':
    return getattr(s, name)(native(a[0], 'dict key'), *a[1:])
  raise KeyError('<symbolic>')


def call_descriptor(c, f, a, k):
  """An unbound C method such as str.lower."""
  if a and f.__objclass__ in (str, bytes, bytearray, int) and _syms(a, k):
    s = a[0]
    if not is_sym(s):
      if isinstance(s, str):
        s = SymStr(els_of(s))
      elif isinstance(s, bytes):
        s = SymBytes(els_of(s))
    return getattr(s, f.__name__)(*a[1:], **k)
  if a and f.__objclass__ is dict and type(a[0]) is SDict and \
      f.__name__ in ('get', 'pop', 'setdefault', 'items', 'keys', 'update'):
    return getattr(a[0], f.__name__)(*a[1:], **k)
  if a and f.__objclass__ is random.Random:
    return _random_method(a[0], f.__name__)(*a[1:], **k)
  return f(*a, **k)


# ------------------------------------------------------------ operator hooks

def sx_in(x, c):
  if sym.CUR is None:
    return x in c
  tc = type(c)
  if tc in SYM_TYPES:
    if tc is SymInt or tc is SymBool:
      raise TypeError("argument of type 'int' is not iterable")
    return c.__contains__(x)
  if tc is str or tc is bytes:
    if is_sym(x):
      if tc is str and not isinstance(x, str):
        raise TypeError("'in <string>' requires string as left operand")
      return (SymStr if tc is str else SymBytes)(els_of(c)).__contains__(x)
    return x in c
  if tc is list or tc is tuple or tc in (set, frozenset) or \
      isinstance(c, types.MappingProxyType):
    if is_sym(x) or (tc in (list, tuple) and any(map(is_sym, c))):
      alts = []
      for y in c:
        if y is x:
          return True
        r = x == y if is_sym(x) else y == x
        if r is True:
          return True
        if r is False or r is NotImplemented:
          continue
        if type(r) is SymBool:
          alts.append(r.t)
        elif r:
          return True
      return mkbool(tm.lor(alts))
    return x in c
  if tc is range and type(x) is SymInt:
    if c.step == 1:
      return sym.band(x >= c.start, x < c.stop)
    return int(x) in c
  if is_sym(x) and tc is not SDict and isinstance(
      c, (dict, type({}.keys()))):
    for y in list(c):
      if y == x:
        return True
    return False
  return x in c


def sx_notin(x, c):
  r = sx_in(x, c)
  return sym.bnot(r)


def sx_not(x):
  if type(x) is SymBool:
    return mkbool(tm.lnot(x.t))
  return not x


def sx_dict(*items):
  d = SDict()
  for it in items:
    if len(it) == 1:
      d.update(it[0])
    else:
      d[it[0]] = it[1]
  return d


def sx_dictcomp(gen):
  d = SDict()
  for key, v in gen:
    d[key] = v
  return d


def sx_set(it):
  return sym.SSet(it)


def sx_mod(a, b):
  if sym.CUR is not None and isinstance(a, str):
    return fmt_percent(a, b)
  if type(a) is bytes and deep_sym(b):
    return a % native(b, 'bytes %')
  return a % b


def sx_guard():
  e = sys.exc_info()[1]
  if isinstance(e, Signal):
    raise e


_SPEC = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?'
                   r'[hlL]?([diouxXeEfFgGcrsa%])')


def _simple(x):
  return x is None or type(x) in (str, int, float, bool, bytes)


def fmt_percent(s, args):
  targs = args if isinstance(args, tuple) else (args,)
  if type(s) is str and all(map(_simple, targs)) and \
      not isinstance(args, dict):
    return s % args
  if type(s) is str:
    # raise format errors now, build the text when it is needed
    n = len([m for m in _SPEC.finditer(s) if m.group(5) != '%'])
    if isinstance(args, tuple) and n != len(args):
      raise TypeError('wrong number of arguments for format string')
    for m, x in zip([m for m in _SPEC.finditer(s) if m.group(5) != '%'],
                    targs):
      if m.group(5) in 'diuxXo' and not isinstance(args, dict) and \
          not isinstance(x, (int, float)):
        raise TypeError('%%%s format: a real number is required, not %s' %
                        (m.group(5), type(x).__name__))

  def build():
    fmt = native(s, 'format string')
    out = []
    pos = 0
    it = iter(targs)
    for m in _SPEC.finditer(fmt):
      out.append(fmt[pos:m.start()])
      pos = m.end()
      key, flags, width, prec, conv = m.groups()
      if conv == '%':
        out.append('%')
        continue
      x = args[key] if key else next(it)
      if conv == 's' and not prec:
        t = to_str(x)
      elif conv == 'r' and is_sym(x):
        t = repr(native(x, 'repr'))
      elif conv in 'diu' and type(x) is SymInt:
        t = int_str(x)
      elif conv in 'xX' and type(x) is SymInt and not prec and \
          flags in ('', '0'):
        t = m_format(x, flags + (width or '') + conv)
        width = None
      elif conv == 'c' and is_sym(x):
        t = m_chr(x) if isinstance(x, int) else x
      else:
        t = '%{}{}{}'.format(flags, '' if width is None else width,
                             '' if prec is None else '.' + prec) + conv
        t = t % (native(x, 'format'),)
        width = None
      if width is not None:
        w = int(width)
        if '-' in flags:
          t = t.ljust(w) if not is_sym(t) else t.ljust(w)
        elif '0' in flags and conv in 'diu':
          t = t.zfill(w)
        else:
          t = t.rjust(w)
      out.append(t)
    out.append(fmt[pos:])
    return sym.join('', out)
  return LazyStr(build)


def sx_fstr(parts):
  """Parts: native str, or (value, conversion, spec)."""
  if sym.CUR is None or all(type(p) is str or
                            (_simple(p[0]) and _simple(p[2])) for p in parts):
    out = []
    for p in parts:
      if type(p) is str:
        out.append(p)
      else:
        v = p[0]
        v = {115: str, 114: repr, 97: ascii}.get(p[1], lambda x: x)(v)
        out.append(format(v, p[2] or ''))
    return ''.join(out)

  def build():
    out = []
    for p in parts:
      if type(p) is str:
        out.append(p)
        continue
      v, conv, spec = p
      if conv == 114:
        v = repr(native(v, 'repr'))
      elif conv == 115:
        v = to_str(v)
      out.append(m_format(v, spec or ''))
    return sym.join('', out)
  return LazyStr(build)


def str_format(s, a, k):
  if all(map(_simple, a)) and all(map(_simple, k.values())):
    return s.format(*a, **k)

  def build():
    out = []
    auto = [0]
    fm = string.Formatter()
    for lit, field, spec, conv in fm.parse(s):
      out.append(lit)
      if field is None:
        continue
      if field == '' or field[0] in '.[':
        field = str(auto[0]) + field
        auto[0] += 1
      first, rest = _split_field(field)
      v = a[int(first)] if first.isdigit() else k[first]
      for isattr, n in rest:
        v = getattr(v, n) if isattr else v[n]
      if conv == 'r':
        v = repr(native(v, 'repr'))
      elif conv == 's':
        v = to_str(v)
      out.append(m_format(v, spec or ''))
    return sym.join('', out)
  return LazyStr(build)


def _split_field(field):
  import _string
  first, rest = _string.formatter_field_name_split(field)
  return str(first), list(rest)


# ------------------------------------------------------------------- builtins

def int_str(x):
  """Decimal text of a symbolic integer: forks over values."""
  t = x.t
  if t.w <= 10:
    return str(int(x))
  return str(sym.CUR.pin(x, 'decimal text of a wide integer'))


@model(str)
def m_str(x='', encoding=None, errors=None):
  if encoding is not None or errors is not None:
    if is_sym(x):
      return x.decode(encoding or 'utf-8', errors or 'strict')
    return str(x, encoding or 'utf-8', errors or 'strict')
  return to_str(x)


def to_str(x):
  t = type(x)
  if t is SymStr or t is LazyStr:
    return x
  if t is SymInt:
    return LazyStr(lambda: int_str(x))
  if t is SymBool:
    return 'True' if x else 'False'
  if t is SymBytes:
    return str(native(x, 'str of bytes'))
  if t in (str, int, float, bool, bytes) or x is None:
    return str(x)
  if isinstance(x, BaseException):
    if t.__str__ is BaseException.__str__ and deep_sym(x.args):
      if len(x.args) == 1:
        return to_str(x.args[0])
      return str(native(x.args, 'str of exception'))
  s = getattr(t, '__str__', None)
  if isinstance(s, types.FunctionType):
    r = s(x)
    if not isinstance(r, str):
      raise TypeError('__str__ returned non-string (type %s)' %
                      type(r).__name__)
    return r
  if deep_sym(x):
    return str(native(x, 'str of a container'))
  return str(x)


@model(repr, ascii)
def m_repr(x):
  if deep_sym(x):
    return LazyStr(lambda: repr(native(x, 'repr')))
  r = getattr(type(x), '__repr__', None)
  if isinstance(r, types.FunctionType):
    return r(x)
  return repr(x)


@model(bytes)
def m_bytes(x=b'', encoding=None, errors='strict'):
  if encoding is not None:
    return x.encode(encoding, errors)
  if type(x) is SymBytes:
    return x
  if type(x) is SymByteArray:
    return mkbytes(x.els)
  if isinstance(x, str):
    raise TypeError('string argument without an encoding')
  if hasattr(type(x), '__sx_bytes__'):
    return x.__sx_bytes__()
  if type(x) is SymInt:
    return bytes(int(x))
  if isinstance(x, (int, bytes, bytearray, memoryview)):
    return bytes(x)
  b = getattr(type(x), '__bytes__', None)
  if isinstance(b, types.FunctionType):
    return b(x)
  return mkbytes(_byte_items(x))


def _byte_items(x):
  out = []
  for v in x:
    out.append(byte_el(v))
  return out


def byte_el(v):
  if type(v) is SymInt:
    if not (v >= 0) or not (v < 256):
      raise ValueError('bytes must be in range(0, 256)')
    t = v.t
    return sym.norm(tm.extract(7, 0, t) if t.w > 8 else
                    sym._ext(t, v.signed, 8))
  if isinstance(v, str):
    raise TypeError("'str' object cannot be interpreted as an integer")
  v = operator.index(v)
  if not 0 <= v < 256:
    raise ValueError('bytes must be in range(0, 256)')
  return v


class SymByteArray(SymBytes):
  __slots__ = ('_els',)
  native = bytearray

  def __init__(self, els=()):
    self._els = list(els)

  @property
  def __class__(self):
    return bytearray

  @property
  def els(self):
    return tuple(self._els)

  def __setitem__(self, i, v):
    if isinstance(i, slice):
      self._els[i] = els_of(v) if isinstance(v, (bytes, bytearray)) else \
          _byte_items(v)
    else:
      self._els[int(i)] = byte_el(v)

  def __delitem__(self, i):
    del self._els[i]

  def append(self, v):
    self._els.append(byte_el(v))

  def extend(self, v):
    if isinstance(v, (bytes, bytearray)):
      self._els.extend(els_of(v))
    else:
      self._els.extend(_byte_items(v))

  def __iadd__(self, v):
    if not isinstance(v, (bytes, bytearray)):
      raise TypeError("can't concat to bytearray")
    self._els.extend(els_of(v))
    return self

  def insert(self, i, v):
    self._els.insert(i, byte_el(v))

  def pop(self, i=-1):
    return self._item(self._els.pop(i))

  def reverse(self):
    self._els.reverse()

  def clear(self):
    del self._els[:]

  def copy(self):
    return SymByteArray(self._els)

  def __deepcopy__(self, memo):
    return self.copy()


sym.SYM_TYPES = SYM_TYPES = frozenset(list(SYM_TYPES) + [SymByteArray])


@model(bytearray)
def m_bytearray(x=b'', encoding=None, errors='strict'):
  if encoding is not None:
    x = x.encode(encoding, errors)
  if isinstance(x, str):
    raise TypeError('string argument without an encoding')
  if type(x) is SymInt or isinstance(x, int):
    return SymByteArray([0] * int(x))
  if isinstance(x, (bytes, bytearray)):
    return SymByteArray(els_of(x))
  return SymByteArray(_byte_items(x))


@model(memoryview)
def m_memoryview(x):
  return mkbytes(els_of(x))


@model(int)
def m_int(x=0, base=None):
  if hasattr(type(x), '__sx_int__'):
    return x.__sx_int__()
  t = type(x)
  if base is None:
    if t is SymInt:
      return x
    if t is SymBool:
      return x._int()
    if t in (SymStr, LazyStr):
      return parse_int(x, 10)
    if t is SymBytes:
      return parse_int(x.decode('latin-1'), 10)
    i = getattr(t, '__int__', None)
    if isinstance(i, types.FunctionType):
      return i(x)
    return int(x)
  if t in (SymStr, LazyStr):
    return parse_int(x, int(base))
  return int(x, int(base))


def parse_int(s, base):
  s = plain(s)
  if type(s) is str:
    return int(s, base)
  digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:base]
  m = mask_of(digs + digs.upper())
  if not s.els:
    raise ValueError('invalid literal for int()')
  ok = tm.land([tm.member(sym.eterm(e), m) for e in s.els])
  if not sym.CUR.branch(ok):
    if len(s.els) > 1:
      e0 = s.els[0]
      rest = tm.land([tm.member(sym.eterm(e), m) for e in s.els[1:]])
      if is_in(e0, mask_of('-')) and sym.CUR.branch(rest):
        return -parse_int(s[1:], base)
      if is_in(e0, mask_of('+')) and sym.CUR.branch(rest):
        return parse_int(s[1:], base)
    # no sign, blank or underscore anywhere: certainly not a number
    odd = sym.WS | mask_of('+-_') | (((1 << 128) - 1) << 128)
    if sym.CUR.branch(tm.land([tm.lnot(tm.member(sym.eterm(e), odd))
                               for e in s.els])):
      raise ValueError('invalid literal for int()')
    return int(native(s, 'int of unusual text'), base)
  v = 0
  w = (base - 1).bit_length()
  for e in s.els:
    if type(e) is int:
      d = int(chr(e), base)
    elif base <= 10:
      d = mkint(tm.extract(w - 1, 0, e))   # '0'..'9' are 0x30..0x39
    else:
      d = mkint(tm.ite(tm.member(e, sym.DIGITS), tm.extract(5, 0, tm.sub(
          e, tm.const(48, 8))), tm.ite(
              tm.member(e, sym.UPPER), tm.extract(5, 0, tm.sub(
                  e, tm.const(55, 8))),
              tm.extract(5, 0, tm.sub(e, tm.const(87, 8))))))
    v = v * base + d
  return v


@model(bool)
def m_bool(x=False):
  if type(x) is SymBool:
    return x
  return bool(x)


@model(float)
def m_float(x=0.0):
  return float(native(x, 'float') if not isinstance(x, int) else int(x))


@model(type)
def m_type(*a, **k):
  if len(a) == 1:
    t = type(a[0])
    if t in SYM_TYPES:
      return a[0].__class__
    if t is SDict:
      return dict
    return t
  return type(*a, **k)


@model(ord)
def m_ord(c):
  c = plain(c)
  if is_sym(c):
    if not isinstance(c, (str, bytes, bytearray)):
      raise TypeError('ord() expected string of length 1')
    if len(c) != 1:
      raise TypeError('ord() expected a character, but string of length %d '
                      'found' % len(c))
    return mkint(c.els[0])
  return ord(c)


@model(chr)
def m_chr(n):
  if type(n) is SymBool:
    n = n._int()
  if type(n) is SymInt:
    if n.signed:
      if n < 0:
        raise ValueError('chr() arg not in range(0x110000)')
    t = n.t
    if t.w > 8:
      if not (n < 256):
        if n >= 0x110000:
          raise ValueError('chr() arg not in range(0x110000)')
        return chr(sym.CUR.pin(n, 'character above 255'))
      t = tm.extract(7, 0, t)
    return mkstr((sym._ext(t, False, 8),))
  return chr(n)


def _digits(n, base):
  """Digit elements of a nonnegative symbolic int, base 2, 8 or 16."""
  k = {2: 1, 8: 3, 16: 4}[base]
  bl = n.bit_length()
  nd = max(1, -(-bl // k))
  t = n.t
  w = nd * k
  t = tm.extract(w - 1, 0, t) if t.w > w else tm.zext(t, w)
  out = []
  for i in range(nd):
    d = tm.extract(w - 1 - i * k, w - (i + 1) * k, t)
    out.append(d)
  return out


def _digit_els(ds, upper=False):
  out = []
  for d in ds:
    if d.w == 4:
      out.append(sym.hexdigit(d, upper))
    elif d.op == 'c':
      out.append(48 + d.args[0])
    else:
      out.append(tm.concat([tm.const(0x30 >> d.w, 8 - d.w), d]))
  return out


def _radix(n, base, prefix, upper=False):
  if n < 0:
    return '-' + _radix(-n, base, prefix, upper)
  if not is_sym(n):
    return prefix + {2: '{:b}', 8: '{:o}', 16: '{:X}' if upper else '{:x}'}[
        base].format(n)
  if n.signed:
    n = mkint(tm.extract(n.t.w - 2, 0, n.t))
    if not is_sym(n):
      return _radix(n, base, prefix, upper)
  return mkstr(els_of(prefix) + tuple(_digit_els(_digits(n, base), upper)))


@model(hex)
def m_hex(n):
  return _radix(n, 16, '0x') if type(n) is SymInt else hex(n)


@model(bin)
def m_bin(n):
  return _radix(n, 2, '0b') if type(n) is SymInt else bin(n)


@model(oct)
def m_oct(n):
  return _radix(n, 8, '0o') if type(n) is SymInt else oct(n)


_FS = re.compile(r'^(#?)(0?)(\d*)([bxXod]?)$')


@model(format)
def m_format(x, spec=''):
  spec = plain(spec)
  if type(x) is SymInt:
    m = _FS.match(spec)
    if m:
      alt, zero, width, conv = m.groups()
      if conv in ('', 'd'):
        s = to_str(x)
        s = plain(s)
      else:
        base = {'b': 2, 'o': 8, 'x': 16, 'X': 16}[conv]
        s = _radix(x, base, '0' + conv if alt else '', conv == 'X')
      if width:
        if alt and zero:
          return format(native(x, 'format'), spec)
        s = s.rjust(int(width), '0' if zero else ' ')
      return s
    return format(native(x, 'format'), spec)
  if type(x) in (SymStr, LazyStr):
    if not spec or spec == 's':
      return x
    return format(native(x, 'format'), spec)
  if type(x) in SYM_TYPES:
    return format(native(x, 'format'), spec)
  if not spec:
    return to_str(x)
  return format(x, spec)


@model(print)
def m_print(*a, **k):
  out = ''
  for i, x in enumerate(a):
    out = out + (' ' if i else '') + (x if isinstance(x, str) else to_str(x))
  sym.CUR.printed.append(out)


@model(input)
def m_input(*a):
  raise EOFError()


@model(hash)
def m_hash(x):
  return hash(native(x, 'hash') if is_sym(x) else x)


@model(map)
def m_map(f, *its):
  return (sx_call(f, *xs) for xs in zip(*its))


@model(filter)
def m_filter(f, it):
  return (x for x in it if (x if f is None else sx_call(f, x)))


@model(functools.reduce)
def m_reduce(f, it, *init):
  it = iter(it)
  if init:
    v = init[0]
  else:
    try:
      v = next(it)
    except StopIteration:
      raise TypeError('reduce() of empty iterable with no initial value')
  for x in it:
    v = sx_call(f, v, x)
  return v


@model(functools.partial)
def m_partial(f, *a, **k):
  def call(*b, **m):
    d = dict(k)
    d.update(m)
    return sx_call(f, *(a + b), **d)
  return call


@model(functools.lru_cache)
def m_lru_cache(maxsize=128, typed=False):
  if callable(maxsize):
    return _cached(maxsize)
  return _cached


def _cached(f):
  memory = SDict()

  @functools.wraps(f)
  def call(*a, **k):
    key = (a, tuple(sorted(k.items())))
    if key not in memory:
      memory[key] = f(*a, **k)
    return memory[key]
  return call


MODELS[functools.cache] = _cached


@model(id)
def m_id(x):
  """An object may get the address of one that is gone."""
  c = sym.CUR
  ids = c.__dict__.setdefault('ids', [])
  for r, v in ids:
    if r() is x:
      return v
  try:
    ref = weakref.ref(x)
  except TypeError:
    return id(x)
  if isinstance(x, type) or callable(x) or type(x) in SYM_TYPES:
    return id(x)
  live = [v for r, v in ids if r() is not None]
  gone = [v for r, v in ids if r() is None and v not in live]
  new = (1 << 44) + 64 * len(ids)
  v = c.choose('id%d' % len(ids), [new] + gone[-1:])
  ids.append((ref, v))
  return v


@model(sorted)
def m_sorted(it, *, key=None, reverse=False):
  kf = key
  xs = list(it)
  if kf is not None:
    return sorted(xs, key=lambda x: sx_call(kf, x), reverse=reverse)
  return sorted(xs, reverse=reverse)


def _minmax(f):
  def m(*a, **k):
    kf = k.pop('key', None)
    if kf is not None:
      k['key'] = lambda x: sx_call(kf, x)
    return f(*a, **k)
  return m


MODELS[min] = _minmax(min)
MODELS[max] = _minmax(max)


@model(any)
def m_any(it):
  alts = []
  for x in it:
    if type(x) is SymBool:
      alts.append(x.t)
    elif x:
      return True
  return mkbool(tm.lor(alts))


@model(all)
def m_all(it):
  parts = []
  for x in it:
    if type(x) is SymBool:
      parts.append(x.t)
    elif not x:
      return False
  return mkbool(tm.land(parts))


@model(sum)
def m_sum(it, start=0):
  for x in it:
    start = start + x
  return start


@model(dict)
def m_dict(*a, **k):
  return SDict(*a, **k)


@model(set)
def m_set(it=()):
  return sym.SSet(it)


@model(collections.OrderedDict)
def m_odict(*a, **k):
  return SDict(*a, **k)


class SDefault(SDict):
  def __init__(self, factory=None, *a, **k):
    self.default_factory = factory
    SDict.__init__(self, *a, **k)

  def __getitem__(self, key):
    r = self._find(key)
    if r is None:
      if self.default_factory is None:
        raise KeyError(key)
      self[key] = sx_call(self.default_factory)
      r = self._find(key)
    return dict.__getitem__(self, r[0])


@model(collections.defaultdict)
def m_ddict(*a, **k):
  return SDefault(*a, **k)


@model(getattr)
def m_getattr(o, name, *d):
  return getattr(o, native(name, 'getattr'), *d)


@model(isinstance)
def m_isinstance(x, t):
  return isinstance(x, t)


@model(divmod)
def m_divmod(a, b):
  return divmod(a, b)


@model(pow)
def m_pow(a, b, m=None):
  if m is None:
    return a ** b
  return pow(native(a, 'pow'), native(b, 'pow'), native(m, 'pow'))


SAFE_FUNCS = set([len, isinstance, issubclass, callable, id, iter, next, abs,
                  getattr, setattr, hasattr, delattr, vars, dir, round,
                  divmod, copy.copy, copy.deepcopy, sys.exc_info,
                  operator.eq, operator.ne, operator.lt, operator.gt,
                  operator.le, operator.ge, operator.xor, operator.add,
                  operator.or_, operator.and_, operator.mul, operator.not_,
                  operator.getitem, operator.sub, operator.floordiv,
                  operator.mod, operator.lshift, operator.rshift,
                  operator.truth, operator.concat])
SAFE_FUNCS.add(builtins.__build_class__)


def from_bytes(b, byteorder='big', *, signed=False):
  if type(b) is bytes or type(b) is bytearray:
    return int.from_bytes(b, byteorder, signed=signed)
  if not isinstance(b, (bytes, bytearray)):
    b = m_bytes(b)
  els = els_of(b)
  if byteorder == 'little':
    els = els[::-1]
  if not els:
    return 0
  return mkint(pack(els), signed)


BY_NAME[(int, 'from_bytes')] = from_bytes


def fromhex(s):
  return unhexlify(''.join(s.split()) if not is_sym(s) else s)


BY_NAME[(bytes, 'fromhex')] = fromhex
BY_NAME[(bytearray, 'fromhex')] = lambda s: SymByteArray(els_of(fromhex(s)))


def sdict_fromkeys(ks, v=None):
  return SDict.fromkeys(ks, v)


BY_NAME[(dict, 'fromkeys')] = sdict_fromkeys


# --------------------------------------------------------------------- hashes

def need_buffer(x):
  if isinstance(x, str):
    raise TypeError('Strings must be encoded before hashing')
  if not isinstance(x, (bytes, bytearray, memoryview)):
    raise TypeError('object supporting the buffer API required')
  return tuple(els_of(x))


REAL_NEW = hashlib.new


class FakeHash(object):
  def __init__(self, alg, data=()):
    self.name = alg
    h = REAL_NEW(alg)
    self.digest_size = h.digest_size
    self.block_size = h.block_size
    self._data = tuple(data)

  def update(self, x):
    self._data += need_buffer(x)

  def digest(self):
    return mkbytes(backend.hash_(self.name, self._data))

  def hexdigest(self):
    return _hex(self.digest())

  def copy(self):
    return FakeHash(self.name, self._data)


def _hex(b):
  return b.hex()


def _hash_ctor(alg):
  def new(x=b'', **k):
    return FakeHash(alg, need_buffer(x))
  new.__name__ = 'openssl_' + alg
  new.sx_alg = alg
  return new


ALGS = ('sha1', 'md5', 'sha224', 'sha256', 'sha384', 'sha512')
for _a in ALGS:
  MODELS[getattr(hashlib, _a)] = _hash_ctor(_a)


@model(hashlib.new)
def m_hashlib_new(name, data=b'', **k):
  return FakeHash(name.lower().replace('-', ''), need_buffer(data))


def _alg(d):
  if isinstance(d, str):
    return d.lower().replace('-', '')
  if hasattr(d, 'sx_alg'):
    return d.sx_alg
  for a in ALGS:
    if d is getattr(hashlib, a):
      return a
  if d is hashlib:
    raise PathUnknown('hmac digestmod')
  if hasattr(d, 'new'):
    return d.new().name
  return sx_call(d).name


class FakeHmac(object):
  def __init__(self, key, msg, alg):
    self._key = key
    self._data = msg
    self._alg = alg
    self.name = 'hmac-' + alg
    self.digest_size = REAL_NEW(alg).digest_size
    self.block_size = REAL_NEW(alg).block_size

  def update(self, x):
    self._data += need_buffer(x)

  def digest(self):
    return mkbytes(backend.hmac(self._key, self._data, self._alg))

  def hexdigest(self):
    return _hex(self.digest())

  def copy(self):
    return FakeHmac(self._key, self._data, self._alg)


def _hmac_new(key, msg=None, digestmod=''):
  if not isinstance(key, (bytes, bytearray)):
    raise TypeError("key: expected bytes or bytearray, but got %r" %
                    type(key).__name__)
  if digestmod == '' or digestmod is None:
    raise TypeError("Missing required argument 'digestmod'.")
  return FakeHmac(tuple(els_of(key)),
                  () if msg is None else need_buffer(msg), _alg(digestmod))


MODELS[hmac.new] = _hmac_new
MODELS[hmac.HMAC] = _hmac_new


@model(hmac.digest)
def m_hmac_digest(key, msg, digest):
  return _hmac_new(key, msg, digest).digest()


@model(hmac.compare_digest)
def m_compare_digest(a, b):
  a, b = plain(a), plain(b)
  if isinstance(a, str) and isinstance(b, str):
    for s in (a, b):
      if is_sym(s):
        if not s.isascii():
          raise TypeError('comparing strings with non-ASCII characters is not '
                          'supported')
      elif not s.isascii():
        raise TypeError('comparing strings with non-ASCII characters is not '
                        'supported')
    return a == b
  if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
    return mkbytes(els_of(a)) == mkbytes(els_of(b))
  raise TypeError('unsupported operand types(s) or combination of types')


MODELS[secrets.compare_digest] = m_compare_digest


# --------------------------------------------------------------------- base64

STD = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
STDMASK = mask_of(STD)


def b64_els(els, c62=43, c63=47):
  """Padded Base64 of elements."""
  out = []
  for i in range(0, len(els), 3):
    g = list(els[i:i + 3])
    n = len(g)
    t = pack(g)
    if n == 1:
      t = tm.concat([t, tm.const(0, 4)])
    elif n == 2:
      t = tm.concat([t, tm.const(0, 2)])
    for j in range(n + 1):
      hi = t.w - 1 - 6 * j
      out.append(sym.norm(tm.b64x(tm.extract(hi, hi - 5, t), c62, c63)))
    out.extend([61] * (3 - n))
  return out


def _bytes_arg(x):
  if isinstance(x, str):
    raise TypeError("a bytes-like object is required, not 'str'")
  if not isinstance(x, (bytes, bytearray, memoryview)):
    raise TypeError("a bytes-like object is required, not '%s'" %
                    type(x).__name__)
  return els_of(x)


@model(base64.urlsafe_b64encode)
def m_urlsafe_b64encode(s):
  return mkbytes(b64_els(_bytes_arg(s), 45, 95))


@model(base64.b64encode, base64.standard_b64encode)
def m_b64encode(s, altchars=None):
  if altchars is not None:
    a = els_of(altchars)
    return mkbytes(b64_els(_bytes_arg(s), a[0], a[1]))
  return mkbytes(b64_els(_bytes_arg(s)))


@model(binascii.b2a_base64)
def m_b2a_base64(s, newline=True):
  return mkbytes(b64_els(_bytes_arg(s)) + ([10] if newline else []))


def _decode_data(s):
  if isinstance(s, str):
    for e in els_of(s):
      if not is_in(e, (1 << 128) - 1):
        raise ValueError('string argument should contain only ASCII characters')
    return list(els_of(s))
  return list(_bytes_arg(s))


def _sextet(e, web):
  """6-bit term of a character known to be in the alphabet, and branches on the
  alphabet; None if it is not in it."""
  if type(e) is int:
    if web:
      e = {45: 43, 95: 47}.get(e, e)
    i = STD.find(bytes([e]))
    return None if i < 0 else tm.const(i, 6)
  if e.op == 'b64x' and (e.args[1], e.args[2]) == (43, 47):
    return e.args[0]
  if web:
    if sym.CUR.branch(tm.member(e, tm.B64MASK)):
      return tm.b64d(e)
    if sym.CUR.branch(tm.eq(e, tm.const(43, 8))):
      return tm.const(62, 6)
    if sym.CUR.branch(tm.eq(e, tm.const(47, 8))):
      return tm.const(63, 6)
    return None
  if not sym.CUR.branch(tm.member(e, STDMASK)):
    return None
  # '+' and '/' are mapped to the web-safe characters that b64d knows
  return tm.b64d(tm.map_char(tm.map_char(e, 43, 45), 47, 95))


def a2b(els, web=False, strict=False):
  """binascii.a2b_base64 of CPython 3.12."""
  bits = []
  quad = 0
  pads = 0
  for e in els:
    if type(e) is int and e == 61 or type(e) is not int and \
        sym.CUR.branch(tm.eq(e, tm.const(61, 8))):
      if strict:
        raise PathUnknown('strict base64')
      pads += 1
      if quad >= 2 and quad + pads >= 4:
        break
      continue
    v = _sextet(e, web)
    if v is None:
      continue
    pads = 0
    bits.append(v)
    quad = (quad + 1) % 4
  else:
    if quad == 1:
      raise binascii.Error('Invalid base64-encoded string: number of data '
                           'characters cannot be 1 more than a multiple of 4')
    if quad:
      raise binascii.Error('Incorrect padding')
  n = len(bits) * 6 // 8
  if not n:
    return []
  t = tm.concat(bits)
  return unpack(tm.extract(t.w - 1, t.w - 8 * n, t))


@model(base64.urlsafe_b64decode)
def m_urlsafe_b64decode(s):
  return mkbytes(a2b(_decode_data(s), True))


@model(base64.b64decode, base64.standard_b64decode)
def m_b64decode(s, altchars=None, validate=False):
  els = _decode_data(s)
  if altchars is not None:
    a = els_of(altchars)
    if tuple(a) == (45, 95) and not validate:
      return mkbytes(a2b(els, True))
    t = mkbytes(els)
    t = t.translate(bytes.maketrans(bytes(a), b'+/'))
    els = list(els_of(t))
  if validate:
    for e in els:
      if not is_in(e, STDMASK | (1 << 61)):
        raise binascii.Error('Only base64 data is allowed')
  return mkbytes(a2b(els))


@model(binascii.a2b_base64)
def m_a2b_base64(s, strict_mode=False):
  return mkbytes(a2b(_decode_data(s), False, strict_mode))


@model(binascii.hexlify, binascii.b2a_hex)
def hexlify(s, *a):
  _bytes_arg(s)
  r = mkbytes(els_of(s)).hex(*a)
  return r.encode('ascii')


@model(binascii.unhexlify, binascii.a2b_hex)
def unhexlify(s):
  els = els_of(s)
  if all(type(e) is int for e in els):
    return binascii.unhexlify(bytes(els))
  if len(els) % 2:
    raise binascii.Error('Odd-length string')
  out = []
  for i in range(0, len(els), 2):
    v = parse_int(mkstr(els[i:i + 2]), 16)
    out.append(byte_el(v))
  return mkbytes(out)


# --------------------------------------------------------------------- struct

_CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False),
          'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False),
          'q': (8, True), 'Q': (8, False)}


def _parse_fmt(fmt):
  if isinstance(fmt, bytes):
    fmt = fmt.decode()
  order = 'big' if fmt[:1] in '>!' and fmt[:1] else 'little'
  if fmt[:1] and fmt[0] in '<>!=@':
    body = fmt[1:]
  else:
    body = fmt
  items = []
  for n, c in re.findall(r'(\d*)([a-zA-Z?])', body):
    if c == 's':
      items.append((c, int(n) if n else 1))
    else:
      items.extend([(c, 1)] * (int(n) if n else 1))
  return order, items


def _size(items):
  return sum(n if c == 's' else 1 if c in 'xc?' else _CODES[c][0]
             for c, n in items)


@model(struct.pack)
def struct_pack(fmt, *vals):
  if not deep_sym(vals):
    return struct.pack(fmt, *vals)
  order, items = _parse_fmt(fmt)
  out = []
  vals = list(vals)
  for c, n in items:
    if c == 'x':
      out.append(0)
      continue
    if not vals:
      raise struct.error('pack expected more items')
    v = vals.pop(0)
    if c == 's':
      els = list(els_of(_need_b(v)))[:n]
      out += els + [0] * (n - len(els))
    elif c == 'c':
      out += list(els_of(_need_b(v)))
    else:
      size, signed = _CODES[c]
      if not isinstance(v, int):
        raise struct.error('required argument is not an integer')
      try:
        b = v.to_bytes(size, order, signed=signed)
      except OverflowError:
        raise struct.error('argument out of range')
      out += list(els_of(b))
  return mkbytes(out)


def _need_b(v):
  if not isinstance(v, (bytes, bytearray)):
    raise struct.error("argument for 's' must be a bytes object")
  return v


@model(struct.unpack)
def struct_unpack(fmt, data):
  data = plain(data)
  if isinstance(data, str):
    raise TypeError("a bytes-like object is required, not 'str'")
  if not deep_sym(data):
    return struct.unpack(fmt, data)
  order, items = _parse_fmt(fmt)
  size = _size(items)
  if len(data) != size:
    raise struct.error('unpack requires a buffer of %d bytes' % size)
  pos = 0
  out = []
  for c, n in items:
    if c == 'x':
      pos += 1
      continue
    if c in 'sc':
      out.append(data[pos:pos + n])
      pos += n
    else:
      sz, signed = _CODES[c]
      out.append(from_bytes(data[pos:pos + sz], order, signed=signed))
      pos += sz
  return tuple(out)


@model(struct.unpack_from)
def struct_unpack_from(fmt, data, offset=0):
  if not deep_sym(data) and not deep_sym(offset):
    return struct.unpack_from(fmt, data, offset)
  n = struct.calcsize(fmt)
  offset = int(offset)
  if offset + n > len(data):
    raise struct.error('unpack_from requires a buffer of at least %d bytes' %
                       (offset + n))
  return struct_unpack(fmt, data[offset:offset + n])


# ----------------------------------------------------------------------- json

def unsdict(x):
  """Native copy of containers without symbolic content."""
  if isinstance(x, dict):
    return {k: unsdict(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [unsdict(v) for v in x]
  return x


def _deep(x):
  if isinstance(x, dict):
    return any(_deep(k) or _deep(v) for k, v in x.items())
  if isinstance(x, (list, tuple)):
    return any(map(_deep, x))
  return is_sym(x)


@model(json.dumps)
def m_dumps(obj, **k):
  if not _deep(obj):
    return json.dumps(unsdict(obj), **k)
  sort = k.pop('sort_keys', False)
  indent = k.pop('indent', None)
  seps = k.pop('separators', None) or (', ' if indent is None else ',', ': ')
  ascii_ = k.pop('ensure_ascii', True)
  # checks of the input only: what is dumped here has no cycles and no floats
  k.pop('check_circular', None)
  k.pop('allow_nan', None)
  if any(v for v in k.values()):
    return json.dumps(native(obj, 'json.dumps options'), sort_keys=sort,
                      indent=indent, separators=seps, ensure_ascii=ascii_,
                      **k)
  if indent is not None and not isinstance(indent, str):
    indent = ' ' * indent
  out = []
  _dump(obj, out, sort, seps, ascii_, indent, '\n')
  return mkstr(out)


def _dump(x, out, sort, seps, ascii_, indent=None, nl='\n'):
  x = plain(x)
  put = lambda t: out.extend(map(ord, t))
  if isinstance(x, str):
    out.append(34)
    for e in els_of(x):
      _dump_char(e, out, ascii_)
    out.append(34)
  elif isinstance(x, (dict, list, tuple)):
    kind = '{}' if isinstance(x, dict) else '[]'
    if not x:
      put(kind)
      return
    put(kind[0])
    inner = nl if indent is None else nl + indent
    if isinstance(x, dict):
      items = list(x.items())
      if sort:
        items.sort()
    else:
      items = [(None, v) for v in x]
    for i, (key, v) in enumerate(items):
      if i:
        put(seps[0])
      if indent is not None:
        put(inner)
      if kind == '{}':
        if not isinstance(key, str):
          if isinstance(key, (bytes, tuple)):
            raise TypeError('keys must be str, int, float, bool or None')
          key = json.dumps(native(key, 'json key'))
        _dump(key, out, sort, seps, ascii_)
        put(seps[1])
      _dump(v, out, sort, seps, ascii_, indent, inner)
    if indent is not None:
      put(nl)
    put(kind[1])
  elif type(x) is SymBool:
    put('true' if x else 'false')
  elif type(x) is SymInt:
    put(int_str(x))
  elif is_sym(x):
    raise TypeError('Object of type bytes is not JSON serializable')
  else:
    put(json.dumps(x))


SAFEJ = mask_of(range(32, 127)) & ~mask_of('"\\')


def _dump_char(e, out, ascii_):
  if type(e) is int:
    out.extend(map(ord, json.dumps(chr(e), ensure_ascii=ascii_)[1:-1]))
    return
  safe = SAFEJ if ascii_ else SAFEJ | mask_of(range(127, 256))
  if is_in(e, safe):
    out.append(e)
    return
  for ch, r in ((34, '\\"'), (92, '\\\\'), (10, '\\n'), (13, '\\r'),
                (9, '\\t'), (12, '\\f'), (8, '\\b')):
    if is_in(e, 1 << ch):
      out.extend(map(ord, r))
      return
  out.extend(map(ord, '\\u00'))
  out.append(sym.hexdigit(tm.extract(7, 4, e)))
  out.append(sym.hexdigit(tm.extract(3, 0, e)))


def _jerr():
  raise json.JSONDecodeError('invalid JSON', '', 0)


@model(json.loads)
def m_loads(s, **k):
  s = plain(s)
  if isinstance(s, (bytes, bytearray)):
    s = mkbytes(els_of(s)).decode('utf-8')
  if not isinstance(s, str):
    raise TypeError('the JSON object must be str, bytes or bytearray, not %s' %
                    type(s).__name__)
  if not is_sym(s):
    return _tosd(json.loads(s, **k))
  if any(v for v in k.values()):
    return _tosd(json.loads(native(s, 'json.loads options'), **k))
  p = _Parser(s.els)
  p.ws()
  v = p.value()
  p.ws()
  if p.i != len(p.els):
    _jerr()
  return v


def _tosd(x):
  if isinstance(x, dict):
    d = SDict()
    for key, v in x.items():
      d[key] = _tosd(v)
    return d
  if isinstance(x, list):
    return [_tosd(v) for v in x]
  return x


class _Parser(object):
  def __init__(self, els):
    self.els = els
    self.i = 0

  def peek(self, mask):
    return self.i < len(self.els) and is_in(self.els[self.i], mask)

  def ws(self):
    while self.peek(mask_of(' \t\n\r')):
      self.i += 1

  def expect(self, ch):
    if not self.peek(1 << ord(ch)):
      _jerr()
    self.i += 1

  def value(self):
    if self.i >= len(self.els):
      _jerr()
    if self.peek(1 << 34):
      self.i += 1
      return self.string()
    if self.peek(1 << 123):
      self.i += 1
      d = SDict()
      self.ws()
      if self.peek(1 << 125):
        self.i += 1
        return d
      while True:
        self.ws()
        self.expect('"')
        key = self.string()
        self.ws()
        self.expect(':')
        self.ws()
        d[key] = self.value()
        self.ws()
        if self.peek(1 << 125):
          self.i += 1
          return d
        self.expect(',')
    if self.peek(1 << 91):
      self.i += 1
      out = []
      self.ws()
      if self.peek(1 << 93):
        self.i += 1
        return out
      while True:
        self.ws()
        out.append(self.value())
        self.ws()
        if self.peek(1 << 93):
          self.i += 1
          return out
        self.expect(',')
    for word, val in (('true', True), ('false', False), ('null', None)):
      if self.peek(1 << ord(word[0])):
        for ch in word:
          self.expect(ch)
        return val
    return self.number()

  def number(self):
    j = self.i
    m = mask_of('0123456789+-.eE')
    while self.peek(m):
      self.i += 1
    t = mkstr(self.els[j:self.i])
    if not t:
      _jerr()
    if is_sym(t):
      if all(type(e) is int or not tm.dom(e) & ~sym.DIGITS for e in t.els):
        if len(t) > 1 and is_in(t.els[0], 1 << 48):
          _jerr()
        return parse_int(t, 10)
      t = native(t, 'json number')
    return json.loads(t)

  def string(self):
    out = []
    while True:
      if self.i >= len(self.els):
        _jerr()
      e = self.els[self.i]
      self.i += 1
      if type(e) is int and e > 255:
        out.append(e)
        continue
      if is_in(e, 1 << 34):
        return mkstr(out)
      if is_in(e, 1 << 92):
        if self.i >= len(self.els):
          _jerr()
        c = self.els[self.i]
        self.i += 1
        for ch, r in (('"', 34), ('\\', 92), ('/', 47), ('n', 10), ('r', 13),
                      ('t', 9), ('f', 12), ('b', 8)):
          if is_in(c, 1 << ord(ch)):
            out.append(r)
            break
        else:
          if not is_in(c, 1 << 117):
            _jerr()
          hx = self.els[self.i:self.i + 4]
          if len(hx) < 4:
            _jerr()
          self.i += 4
          for h in hx:
            if not is_in(h, sym.HEXD):
              _jerr()
          ds = [_hexval(h) for h in hx]
          t = tm.concat(ds)
          hi = tm.extract(15, 8, t)
          if hi.op == 'c' and hi.args[0] == 0:
            out.append(sym.norm(tm.extract(7, 0, t)))
          elif t.op == 'c':
            out.append(t.args[0])
          else:
            v = mkint(t)
            if v < 256:
              out.append(tm.extract(7, 0, t))
            else:
              out.append(int(native(v, 'json unicode escape')))
        continue
      if is_in(e, (1 << 32) - 1):
        _jerr()
      out.append(e)


def _hexval(h):
  if type(h) is int:
    return tm.const(int(chr(h), 16), 4)
  # undo hexdigit()
  if h.op == 'ite' and h.args[1].op == 'add':
    a = h.args[1].args[0]
    if a.op == 'cat' and a.args[-1].w == 4 and a.w == 8:
      return a.args[-1]
  return tm.ite(tm.member(h, sym.DIGITS), tm.extract(3, 0, h),
                tm.add(tm.extract(3, 0, h), tm.const(9, 4)))


@model(json.load)
def m_load(f, **k):
  return m_loads(f.read(), **k)


@model(json.dump)
def m_dump(obj, f, **k):
  f.write(m_dumps(obj, **k))


# --------------------------------------------------------------------- pickle

@model(pickle.dumps)
def m_pickle_dumps(obj, *a, **k):
  out = []
  _pickle(obj, out, {})
  return mkbytes(out)


def _tag(out, s):
  out.extend(s.encode())


def _pickle(x, out, memo):
  """An injective structural encoding (not the real format)."""
  t = type(x)
  x = plain(x)
  if isinstance(x, (str, bytes, bytearray)):
    els = els_of(x)
    _tag(out, '%s%d:' % ('s' if isinstance(x, str) else 'b', len(els)))
    for e in els:
      if type(e) is int and e > 255:
        _tag(out, '<%d>' % e)
      else:
        out.append(e)
    return
  if t is SymInt:
    _tag(out, 'I%d:' % t.w if hasattr(t, 'w') else 'I')
    out.extend(unpack(tm.zext(x.t, (x.t.w + 7) // 8 * 8)))
    return
  if t is SymBool:
    x = bool(x)
  if x is None or isinstance(x, (int, float)):
    _tag(out, repr(x) + ';')
    return
  if isinstance(x, type) or isinstance(x, types.FunctionType):
    _tag(out, 'c%s.%s;' % (x.__module__, x.__qualname__))
    return
  if id(x) in memo:
    _tag(out, 'm%d;' % memo[id(x)])
    return
  memo[id(x)] = len(memo)
  if isinstance(x, (list, tuple)):
    _tag(out, '%s%d(' % (type(x).__name__, len(x)))
    for v in x:
      _pickle(v, out, memo)
    _tag(out, ')')
  elif isinstance(x, dict):
    _tag(out, 'd%d(' % len(x))
    for key, v in x.items():
      _pickle(key, out, memo)
      _pickle(v, out, memo)
    _tag(out, ')')
  elif hasattr(x, '__dict__'):
    if type(x).__module__ in ('_io', 'sx.context'):
      raise TypeError('cannot pickle %r object' % type(x).__name__)
    _tag(out, 'o%s(' % type(x).__qualname__)
    state = x.__dict__
    if hasattr(type(x), '__getstate__') and isinstance(
        type(x).__getstate__, types.FunctionType):
      state = x.__getstate__()
    _pickle(dict(state), out, memo)
    _tag(out, ')')
  else:
    raise TypeError('cannot pickle %r object' % type(x).__name__)


# --------------------------------------------------------------------- random

@model(os.urandom)
def m_urandom(n):
  return sym.CUR.draw('os', int(n))


@model(secrets.token_bytes)
def m_token_bytes(n=None):
  return sym.CUR.draw('os', 32 if n is None else int(n))


@model(secrets.randbelow)
def m_randbelow(n):
  return sym.CUR.draw_int('os', 0, n - 1)


@model(secrets.randbits)
def m_randbits(n):
  return sym.CUR.draw_int('os', 0, (1 << n) - 1)


_SystemRandom = random.SystemRandom


def _random_method(r, name):
  kind = 'os' if isinstance(r, _SystemRandom) else 'weak'

  def meth(*a, **k):
    c = sym.CUR
    if name == 'randint':
      return c.draw_int(kind, a[0], a[1])
    if name == 'randrange':
      if len(a) == 1:
        return c.draw_int(kind, 0, a[0] - 1)
      if len(a) == 2:
        return c.draw_int(kind, a[0], a[1] - 1)
    if name == 'getrandbits':
      return c.draw_int(kind, 0, (1 << a[0]) - 1)
    if name == 'randbytes':
      return c.draw(kind, a[0])
    if name == 'choice':
      return a[0][int(c.draw_int(kind, 0, len(a[0]) - 1))]
    if name == 'seed':
      return None
    raise PathUnknown('random.%s' % name)
  return meth


class FakeSystemRandom(object):
  def __init__(self, *a):
    pass

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return _random_method(_SYSRAND, name)


_SYSRAND = random.SystemRandom()
MODELS[random.SystemRandom] = FakeSystemRandom


class FakeRandom(object):
  def __init__(self, *a):
    pass

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return _random_method(_WEAK, name)


_WEAK = random.Random()
MODELS[random.Random] = FakeRandom


# ---------------------------------------------------------------- files and os

def _path(p):
  """(in the virtual file system?, native normalised path)"""
  p = native(p, 'path')
  if isinstance(p, bytes):
    p = p.decode()
  p = str(p)
  if not p.startswith('/'):
    p = os.path.join(sym.CUR.cwd(), p)
  p = os.path.normpath(p)
  return p == '/sxfs' or p.startswith('/sxfs/'), p


@model(open, io.open)
def m_open(p, mode='r', *a, **k):
  if isinstance(p, int):
    raise PathUnknown('open of a descriptor')
  v, n = _path(p)
  if v:
    return sym.CUR.fs.open(n, mode)
  if any(ch in mode for ch in 'wax+'):
    raise PathUnknown('write outside the virtual file system: %s' % n)
  return open(n, mode, *a, **k)


MODELS[codecs.open] = lambda p, mode='r', *a, **k: m_open(p, mode)


@model(os.path.join)
def m_join(*a):
  return os.path.join(*[native(x, 'path') for x in a])


def _q(real, virt):
  def f(p='.'):
    v, n = _path(p)
    if v:
      return virt(sym.CUR.fs, n)
    return real(p)
  return f


MODELS[os.path.exists] = _q(os.path.exists, lambda fs, p: fs.exists(p))
MODELS[os.path.lexists] = _q(os.path.exists, lambda fs, p: fs.exists(p))
MODELS[os.path.isfile] = _q(os.path.isfile, lambda fs, p: fs.isfile(p))
MODELS[os.path.isdir] = _q(os.path.isdir, lambda fs, p: fs.isdir(p))
MODELS[os.path.islink] = _q(os.path.islink, lambda fs, p: False)
MODELS[os.listdir] = _q(os.listdir, lambda fs, p: fs.listdir(p))
MODELS[os.path.getsize] = _q(os.path.getsize,
                             lambda fs, p: len(fs.files[fs.norm(p)]))


def _import(real):
  """Modules of the virtual file system are run when first imported."""
  def f(name, *a, **k):
    name = native(name, 'module name')
    cur = sym.CUR
    fs = getattr(cur, 'fs', None)
    if fs is not None:
      mods = cur.__dict__.setdefault('imported', {})
      if name in mods:
        return mods[name]
      for d in sys.path:
        if isinstance(d, str) and d.startswith('/sxfs/'):
          src = fs.files.get(fs.norm(d + '/' + name + '.py'))
          if src is not None:
            m = mods[name] = type(sys)(name)
            exec(compile(native(src, 'module'), name, 'exec'), m.__dict__)
            return m
    return real(name, *a, **k)
  return f


MODELS[__import__] = _import(__import__)
MODELS[importlib.import_module] = _import(importlib.import_module)


@model(os.access)
def m_access(p, mode):
  v, n = _path(p)
  return sym.CUR.fs.exists(n) if v else os.access(n, mode)


@model(os.getcwd)
def m_getcwd():
  return sym.CUR.cwd()


def _w(virt):
  def f(*a, **k):
    ps = [_path(p) for p in a if isinstance(p, str)]
    if not all(v for v, _ in ps):
      raise PathUnknown('change outside the virtual file system')
    return virt(sym.CUR.fs, *[n for _, n in ps])
  return f


MODELS[os.remove] = _w(lambda fs, p: fs.remove(p))
MODELS[os.unlink] = _w(lambda fs, p: fs.remove(p))
MODELS[os.rename] = _w(lambda fs, a, b: fs.rename(a, b))
MODELS[os.replace] = _w(lambda fs, a, b: fs.rename(a, b))


def _mkdir(fs, p):
  if fs.exists(p):
    raise FileExistsError(17, 'File exists', p)
  fs.makedirs(p)


MODELS[os.mkdir] = _w(_mkdir)


@model(os.makedirs)
def m_makedirs(p, mode=0o777, exist_ok=False):
  v, n = _path(p)
  if not v:
    raise PathUnknown('change outside the virtual file system')
  fs = sym.CUR.fs
  if fs.exists(n):
    if exist_ok and fs.isdir(n):
      return
    raise FileExistsError(17, 'File exists', n)
  fs.makedirs(n)


def _refuse(name):
  def f(*a, **k):
    raise PathUnknown('call of ' + name)
  return f


for _n in ('rmdir', 'removedirs', 'system', 'popen', 'kill', 'chmod', 'chown',
           'chdir', 'symlink', 'link', 'truncate', 'open', 'write', 'close',
           'fork', 'execv', 'execve', 'putenv', 'umask', 'fdopen', 'fsync'):
  if hasattr(os, _n) and _n not in ('close', 'write', 'fsync', 'umask'):
    MODELS[getattr(os, _n)] = _refuse('os.' + _n)
MODELS[os.fsync] = lambda fd: None
MODELS[os.umask] = lambda m: 0o022


@model(os._exit)
def m__exit(code):
  raise SystemExit(code)


for _n in ('check_output', 'check_call', 'call', 'run', 'Popen'):
  MODELS[getattr(subprocess, _n)] = _refuse('subprocess.' + _n)

import shutil
for _n in ('rmtree', 'copy', 'copyfile', 'move', 'copytree'):
  MODELS[getattr(shutil, _n)] = _refuse('shutil.' + _n)
import tempfile
for _n in ('mkstemp', 'mkdtemp', 'NamedTemporaryFile', 'TemporaryFile'):
  MODELS[getattr(tempfile, _n)] = _refuse('tempfile.' + _n)


@model(warnings.warn)
def m_warn(*a, **k):
  return None


@model(time.sleep)
def m_sleep(*a):
  return None


# in-memory text and byte streams

class SymIO(object):
  """io.StringIO / io.BytesIO for symbolic data."""

  def __init__(self, text, initial=None, **k):
    self._text = text
    self._e = '' if text else b''
    self._v = self._e if initial is None else plain(initial)
    self._pos = 0
    self.closed = False

  def _open(self):
    if self.closed:
      raise ValueError('I/O operation on closed file')

  def write(self, s):
    self._open()
    if isinstance(s, str) != self._text:
      raise TypeError('wrong string type for this stream')
    s = plain(s)
    v = self._v
    if self._pos > len(v):
      v = v + ('\0' if self._text else b'\0') * (self._pos - len(v))
    self._v = v[:self._pos] + s + v[self._pos + len(s):]
    self._pos += len(s)
    return len(s)

  def read(self, n=-1):
    self._open()
    if n is None or n < 0:
      r = self._v[self._pos:]
    else:
      r = self._v[self._pos:self._pos + n]
    self._pos += len(r)
    return r

  def getvalue(self):
    return self._v

  def seek(self, pos, whence=0):
    base = {0: 0, 1: self._pos, 2: len(self._v)}[whence]
    self._pos = max(0, base + pos)
    return self._pos

  def tell(self):
    return self._pos

  def flush(self):
    self._open()

  def close(self):
    self.closed = True

  def readable(self):
    return True
  writable = seekable = readable

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  def readlines(self):
    return self.read().splitlines(True)

  def __iter__(self):
    return iter(self.readlines())


MODELS[io.StringIO] = lambda initial='', newline='\n': SymIO(True, initial)
MODELS[io.BytesIO] = lambda initial=b'': SymIO(False, initial)
