"""Fresh copies of the code under test: every run (and, where a property needs it,
every simulated process) imports its own nbc from /repo's working tree, so no
module state leaks between runs.  Compiled code is memoised per worker."""
import ast
import builtins
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import kernel as K

REPO = os.environ.get('DST_REPO', '/repo')
_code = {}
PREEMPT = ()          # files (relative to nbc/) instrumented with preemption points


def _point(v=None):
    k = K.current_kernel
    if k is not None and k.preempt_p:
        k.preempt('op')
    return v


builtins.__dst_point__ = _point


class _Points(ast.NodeTransformer):
    """Makes the evaluation of every name, attribute, item, call and comparison
    inside functions, and every statement, a point where another thread may run.
    The meaning of the code is unchanged."""

    def __init__(self):
        self.depth = 0

    def func(self, node):
        self.depth += 1
        node.body = self.block(node.body)
        self.depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = func

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        node.body = self.block(node.body) if self.depth else [self.visit(x) for x in node.body]
        return node

    def block(self, body):
        out = []
        for i, st in enumerate(body):
            doc = isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
            if not doc and not isinstance(st, (ast.Global, ast.Nonlocal, ast.ImportFrom)):
                out.append(ast.copy_location(ast.Expr(self.wrap(None, st)), st))
            out.append(self.visit(st) if not doc else st)
        return out

    def wrap(self, value, at):
        c = ast.Call(ast.Name('__dst_point__', ast.Load()), [value] if value is not None else [], [])
        return ast.fix_missing_locations(ast.copy_location(c, at))

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if self.depth and isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, ast.ClassDef):
                setattr(node, f, _Done(self.block(b)))
        for name, value in ast.iter_fields(node):
            if isinstance(value, _Done):
                setattr(node, name, list(value))
            elif isinstance(value, list):
                setattr(node, name, [self.visit(x) if isinstance(x, ast.AST) else x for x in value])
            elif isinstance(value, ast.AST):
                setattr(node, name, self.visit(value))
        if self.depth and isinstance(node, (ast.Name, ast.Attribute, ast.Subscript, ast.Call, ast.Compare, ast.BinOp)) \
                and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
            return self.wrap(node, node)
        if self.depth and isinstance(node, ast.AugAssign):
            node.value = self.wrap(node.value, node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_arguments(self, node):
        return node

    def visit_match_case(self, node):
        return node


class _Done(list):
    pass


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        inst = any(path.endswith('/nbc/' + x) for x in PREEMPT)
        c = _code.get((path, inst))
        if c is None:
            with open(path, 'rb') as f:
                src = f.read()
            if inst:
                src = ast.fix_missing_locations(_Points().visit(ast.parse(src, path)))
            c = _code[(path, inst)] = compile(src, path, 'exec', dont_inherit=True)
        return c


class _Finder(object):
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != 'nbc' and not name.startswith('nbc.'):
            return None
        rel = name.replace('.', '/')
        base = os.path.join(REPO, rel)
        if os.path.isfile(base + '/__init__.py'):
            fn = base + '/__init__.py'
            return importlib.util.spec_from_file_location(
                name, fn, loader=_Loader(name, fn), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py', loader=_Loader(name, base + '.py'))
        return None


def _upnp_stub():
    m = types.ModuleType('nbc.node.darwin3.miniupnpc')

    class UPnP(object):
        def __init__(self):
            k = K.current_kernel
            f = k.hooks.get('upnp') if k is not None else None
            self.__dict__['_gw'] = f() if f else None
            self.discoverdelay = 0
            self.lanaddr = ''

        def __getattr__(self, name):
            gw = self.__dict__.get('_gw')
            if gw is None:
                raise Exception('no UPnP device')
            return getattr(gw, name)

        def __setattr__(self, name, v):
            gw = self.__dict__.get('_gw')
            if gw is not None and name == 'lanaddr':
                return
            self.__dict__[name] = v
    m.UPnP = UPnP
    return m


def purge():
    for n in [n for n in sys.modules if n == 'nbc' or n.startswith('nbc.')]:
        del sys.modules[n]


def fresh(node=True):
    """Import nbc anew; returns a namespace with the modules used by checks."""
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)
    purge()
    ns = types.SimpleNamespace()
    ns.nbc = importlib.import_module('nbc')
    ns.util = importlib.import_module('nbc.util')
    ns.wallet = importlib.import_module('nbc.wallet')
    ns.coins = importlib.import_module('nbc.coins')
    if node:
        sys.modules['nbc.node.darwin3.miniupnpc'] = _upnp_stub()
        plat = sys.platform
        sys.platform = 'darwin'
        try:
            ns.node = importlib.import_module('nbc.node')
            ns.raw = importlib.import_module('nbc.node.raw')
        finally:
            sys.platform = plat
        ns.protocol = importlib.import_module('nbc.protocol')
        ns.basenode = importlib.import_module('nbc.node.basenode')
        ns.connection = importlib.import_module('nbc.node.connection')
    return ns
