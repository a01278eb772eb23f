"""Instrumented import of the code under test.

The source files of /repo are parsed and rewritten (calls, membership tests,
dict displays, string formatting, 'not') so that symbolic values can flow
through builtins; everything else of Python's semantics is Python's own.  The
modules are executed afresh for every path.
"""
import ast
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

from . import fakes
from . import models
from . import sym

REPO = os.environ.get('SX_REPO', '/repo')
SRC = os.path.join(REPO, 'python', 'src', 'keyczar')
INTEROP = os.path.join(REPO, 'interop')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness')

KEEP = ('super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir',
        'property', 'staticmethod', 'classmethod')


class Rewrite(ast.NodeTransformer):

  def _call(self, name, args, node, keywords=()):
    return ast.copy_location(ast.Call(
        func=ast.Name(id=name, ctx=ast.Load()), args=args,
        keywords=list(keywords)), node)

  def visit_Call(self, node):
    if isinstance(node.func, ast.Name) and node.func.id in KEEP:
      self.generic_visit(node)
      return node
    self.generic_visit(node)
    return self._call('_sx_call', [node.func] + node.args, node, node.keywords)

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1:
      if isinstance(node.ops[0], ast.In):
        return self._call('_sx_in', [node.left, node.comparators[0]], node)
      if isinstance(node.ops[0], ast.NotIn):
        return self._call('_sx_notin', [node.left, node.comparators[0]], node)
    return node

  def visit_UnaryOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Not):
      return self._call('_sx_not', [node.operand], node)
    return node

  def visit_Dict(self, node):
    self.generic_visit(node)
    items = []
    for k, v in zip(node.keys, node.values):
      els = [v] if k is None else [k, v]
      items.append(ast.copy_location(ast.Tuple(elts=els, ctx=ast.Load()), node))
    return self._call('_sx_dict', items, node)

  def visit_DictComp(self, node):
    self.generic_visit(node)
    pair = ast.copy_location(ast.Tuple(elts=[node.key, node.value],
                                       ctx=ast.Load()), node)
    gen = ast.copy_location(ast.GeneratorExp(elt=pair,
                                             generators=node.generators), node)
    return self._call('_sx_dictcomp', [gen], node)

  def visit_Set(self, node):
    self.generic_visit(node)
    return self._call('_sx_set', [ast.copy_location(
        ast.Tuple(elts=node.elts, ctx=ast.Load()), node)], node)

  def visit_SetComp(self, node):
    self.generic_visit(node)
    return self._call('_sx_set', [ast.copy_location(ast.GeneratorExp(
        elt=node.elt, generators=node.generators), node)], node)

  def visit_BinOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Mod):
      return self._call('_sx_mod', [node.left, node.right], node)
    return node

  def visit_JoinedStr(self, node):
    parts = []
    for v in node.values:
      if isinstance(v, ast.Constant):
        parts.append(v)
      else:
        spec = self.visit(v.format_spec) if v.format_spec is not None \
            else ast.copy_location(ast.Constant(''), node)
        parts.append(ast.copy_location(ast.Tuple(
            elts=[self.visit(v.value),
                  ast.copy_location(ast.Constant(v.conversion), node), spec],
            ctx=ast.Load()), node))
    return self._call('_sx_fstr', [ast.copy_location(
        ast.List(elts=parts, ctx=ast.Load()), node)], node)

  def visit_ExceptHandler(self, node):
    self.generic_visit(node)
    guard = ast.copy_location(ast.Expr(value=self._call('_sx_guard', [], node)),
                              node)
    names = []
    t = node.type
    for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
      if x is None or (isinstance(x, ast.Name) and x.id == 'BaseException'):
        names.append(x)
    if names:
      node.body.insert(0, guard)
    return node


HOOKS = {'_sx_call': models.sx_call, '_sx_in': models.sx_in,
         '_sx_notin': models.sx_notin, '_sx_not': models.sx_not,
         '_sx_dict': models.sx_dict, '_sx_dictcomp': models.sx_dictcomp,
         '_sx_set': models.sx_set, '_sx_mod': models.sx_mod, '_sx_fstr': models.sx_fstr,
         '_sx_guard': models.sx_guard}

_code = {}
_stub_dirs = {}


def compiled(path):
  c = _code.get(path)
  if c is None:
    with open(path, encoding='utf-8') as f:
      src = f.read()
    tree = ast.parse(src, path)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    c = _code[path] = compile(tree, path, 'exec', dont_inherit=True)
  return c


def find(name):
  """(path, is package) of a module this loader serves, or None."""
  parts = name.split('.')
  if parts[0] == 'keyczar':
    p = os.path.join(SRC, *parts[1:])
    if os.path.isdir(p) and os.path.isfile(os.path.join(p, '__init__.py')):
      return os.path.join(p, '__init__.py'), True
    if len(parts) > 1 and os.path.isfile(p + '.py'):
      return p + '.py', False
  elif parts[0] == 'interop' and len(parts) == 1:
    return os.path.join(INTEROP, 'interop.py'), False
  elif parts[0] == 'harness':
    p = os.path.join(HARNESS, *parts[1:])
    if len(parts) == 1:
      return os.path.join(HARNESS, '__init__.py'), True
    if os.path.isfile(p + '.py'):
      return p + '.py', False
  return None


def mine(name):
  return name.split('.')[0] in ('keyczar', 'interop', 'harness')


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):

  def find_spec(self, name, path=None, target=None):
    r = find(name)
    if r is None:
      return None
    spec = importlib.util.spec_from_loader(name, self, origin=r[0],
                                           is_package=r[1])
    spec.has_location = True
    if r[1]:
      spec.submodule_search_locations = [os.path.dirname(r[0])]
    return spec

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    module.__dict__.update(HOOKS)
    module.__file__ = module.__spec__.origin
    exec(compiled(module.__spec__.origin), module.__dict__)


_installed = False


def install():
  global _installed
  if _installed:
    return
  _installed = True
  sys.modules.update(fakes.modules())
  sys.modules['simplejson'] = None
  sys.meta_path.insert(0, Finder())
  sys.dont_write_bytecode = True


class Namespace(object):
  pass


KZ = ('errors', 'keyinfo', 'util', 'keydata', 'keys', 'keyczar', 'readers',
      'writers', 'keyczart')


def fresh(interop=False):
  """A fresh import of the code under test; call with sym.CUR set."""
  for n in [n for n in sys.modules if mine(n)]:
    del sys.modules[n]
  ns = Namespace()
  if interop:
    ns.interop = importlib.import_module('interop')
    return ns
  for n in KZ:
    setattr(ns, n, importlib.import_module('keyczar.' + n))
  return ns


def harness(name):
  return importlib.import_module('harness.' + name)


def functions_of(paths):
  """Qualified function names defined in the files, with line ranges."""
  out = []
  for p in paths:
    with open(p, encoding='utf-8') as f:
      tree = ast.parse(f.read())

    def go(node, prefix):
      for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
          out.append((p, prefix + ch.name, ch.lineno, ch.end_lineno))
          go(ch, prefix + ch.name + '.')
        elif isinstance(ch, ast.ClassDef):
          go(ch, prefix + ch.name + '.')
        else:
          go(ch, prefix)
    go(tree, '')
  return out


def sources():
  out = []
  for d, _, fs in os.walk(SRC):
    out += [os.path.join(d, f) for f in fs if f.endswith('.py')]
  out.append(os.path.join(INTEROP, 'interop.py'))
  return sorted(out)


def constants():
  """Integer constants of the code under test (boundary values for sizes)."""
  vals = set()
  for p in sources():
    try:
      with open(p, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    except (SyntaxError, OSError):
      continue
    for n in ast.walk(tree):
      if isinstance(n, ast.Constant) and type(n.value) is int:
        vals.add(n.value)
  return vals
