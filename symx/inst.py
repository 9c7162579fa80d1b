"""AST instrumentation and the loader for /repo's current sources."""
import ast
import builtins
import copy
import os
import sys
import types
import hashlib

from . import models
from . import engine as E

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


def name(n):
    return ast.Attribute(ast.Name('_sx', ast.Load()), n, ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, trace_functions):
        self.stack = [modname]
        self.trace = trace_functions

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in NOCALL:
            return n
        return ast.copy_location(ast.Call(name('call'), [n.func] + n.args, n.keywords), n)

    def slice_expr(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(name('slice'), [none(s.lower), none(s.upper), none(s.step)], [])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self.slice_expr(e) for e in s.elts], ast.Load())
        return s

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(name('getitem'), [n.value, self.slice_expr(n.slice)], []), n)
        n.value = ast.Call(name('w'), [n.value], [])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]
            a, b = n.left, n.comparators[0]
            m = None
            if isinstance(op, ast.In):
                m, args = 'contains', [b, a]
            elif isinstance(op, ast.NotIn):
                m, args = 'ncontains', [b, a]
            elif isinstance(op, (ast.Is, ast.IsNot)) and (
                    (isinstance(b, ast.Constant) and b.value in (True, False) and isinstance(b.value, bool)) or
                    (isinstance(a, ast.Constant) and isinstance(a.value, bool))):
                m, args = ('is_' if isinstance(op, ast.Is) else 'isnot'), [a, b]
            if m:
                # evaluation order: a before b (both are side-effect free or called once)
                if m in ('contains', 'ncontains'):
                    lam = ast.Call(name(m + '2'), [a, b], [])
                    return ast.copy_location(lam, n)
                return ast.copy_location(ast.Call(name(m), args, []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(name('mod'), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            self.generic_visit(n)
            return ast.copy_location(ast.Assign([n.target], ast.Call(
                name('mod'), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        self.generic_visit(n)
        return n

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return ast.copy_location(ast.Call(name('mkdict'), [g], []), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(k is not None for k in n.keys) and not all(isinstance(k, (ast.Constant, ast.Attribute)) or isinstance(k, ast.Name) and k.id.isupper() for k in n.keys):
            ps = [ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)]
            return ast.copy_location(ast.Call(name('mkdict'), [ast.Tuple(ps, ast.Load())], []), n)
        return n

    def visit_JoinedStr(self, n):
        n.values = [self.visit(v) for v in n.values]
        return ast.copy_location(ast.Call(name('lift'), [n], []), n)

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        if n.format_spec is not None:
            # keep nested specs native
            n.format_spec.values = [self.visit(v) if isinstance(v, ast.FormattedValue) else v
                                    for v in n.format_spec.values]
        return n

    def _loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(name('tick'), [], [])))
        return n
    visit_While = visit_For = _loop

    def _func(self, n):
        self.stack.append(n.name)
        q = '.'.join(self.stack)
        decs = n.decorator_list
        n.decorator_list = []
        self.generic_visit(n)
        if n.name in ('__str__', '__repr__', '__format__'):
            # natively called by str(), '%' and format(): the result must be a plain str (placeholders keep symbolic parts)
            class R(ast.NodeTransformer):
                def visit_Return(self, r):
                    if r.value is not None:
                        r.value = ast.Call(name('plain'), [r.value], [])
                    return r

                def visit_FunctionDef(self, f):
                    return f
                visit_Lambda = visit_FunctionDef
            n.body = [R().visit(b) for b in n.body]
        n.decorator_list = [self.visit(d) for d in decs]
        self.stack.pop()
        if self.trace:
            i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body.insert(i, ast.Expr(ast.Call(name('enter'), [ast.Constant(q)], [])))
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_ExceptHandler(self, n):
        broad = n.type is None or any(isinstance(x, ast.Name) and x.id == 'BaseException' for x in ast.walk(n.type))
        self.generic_visit(n)
        if broad:
            n.body.insert(0, ast.Expr(ast.Call(name('reraise'), [], [])))
        return n


models.Hooks.contains2 = staticmethod(lambda a, b: models.Hooks.contains(b, a))
models.Hooks.ncontains2 = staticmethod(lambda a, b: not models.Hooks.contains(b, a))

_code = {}
sources = {}


def instrument(path, modname, trace_functions=True):
    k = (path, modname)
    if k not in _code:
        with open(path, 'rb') as f:
            src = f.read()
        if trace_functions:
            sources[os.path.relpath(path, REPO)] = hashlib.sha256(src).hexdigest()[:16]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
            tree = Rewriter(modname, trace_functions).visit(tree)
            # future imports must stay first
            ast.fix_missing_locations(tree)
            _code[k] = compile(tree, path, 'exec', dont_inherit=True)
    return _code[k]


class World(object):
    """A private set of instrumented sunspec modules with restorable state."""

    def __init__(self, stubs):
        self.mods = {}
        self.stubs = stubs
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self.imp
        self.saved = None

    def find(self, modname):
        top = modname.split('.')[0]
        p = os.path.join(REPO if top == 'sunspec' else ROOT, *modname.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        raise ModuleNotFoundError('No module named %r' % modname)

    def load(self, modname):
        m = self.mods.get(modname)
        if m is not None:
            return m
        if '.' in modname:
            parent = self.load(modname.rpartition('.')[0])
            m = self.mods.get(modname)
            if m is not None:
                return m
        else:
            parent = None
        path, pkg = self.find(modname)
        m = types.ModuleType(modname)
        m.__file__ = path
        m.__package__ = modname if pkg else modname.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_sx'] = models.SX
        self.mods[modname] = m
        try:
            exec(instrument(path, modname, modname.split('.')[0] == 'sunspec'), m.__dict__)
        except BaseException:
            del self.mods[modname]
            raise
        if parent is not None:
            setattr(parent, modname.rpartition('.')[2], m)
        return m

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            nm = pkg + ('.' + nm if nm else '')
        top = nm.split('.')[0]
        if top in self.stubs:
            return self.stubs[top]
        if top not in ('sunspec', 'props'):
            return builtins.__import__(nm, None, None, fromlist, 0)
        m = self.load(nm)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        self.load(nm + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        return self.load(top)

    def script(self, path):
        """run a file of the repository as a program"""
        m = types.ModuleType('__main__')
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_sx'] = models.SX
        exec(instrument(path, 'scripts.' + os.path.basename(path)[:-3], True), m.__dict__)

    # -- state restore between paths
    def snapshot(self):
        self.saved = {}
        for n, m in self.mods.items():
            d = dict(m.__dict__)
            self.saved[n] = (d, self._containers(d))

    def _containers(self, d):
        out = []
        seen = set()

        def walk(v, depth):
            if id(v) in seen:
                return
            if isinstance(v, dict) and type(v) is dict:
                seen.add(id(v))
                out.append((v, dict(v)))
                if depth:
                    for x in v.values():
                        walk(x, depth - 1)
            elif type(v) in (list, set):
                seen.add(id(v))
                out.append((v, type(v)(v)))
                if depth and type(v) is list and len(v) < 64:
                    for x in v:
                        walk(x, depth - 1)
            elif isinstance(v, type) and v.__module__.startswith('sunspec'):
                seen.add(id(v))
                cd = dict(v.__dict__)
                out.append((v, cd))
                for x in cd.values():
                    walk(x, 1)
            elif isinstance(v, types.FunctionType):
                for x in (v.__defaults__ or ()):
                    walk(x, 1)
            elif type(v).__module__.startswith('sunspec') and hasattr(v, '__dict__'):
                seen.add(id(v))
                out.append((v, dict(v.__dict__)))
                for x in v.__dict__.values():
                    walk(x, 1)
        for k, v in d.items():
            if k.startswith('__') and k.endswith('__') or k == '_sx':
                continue
            walk(v, 2)
        return out

    def restore(self):
        for n, (d, cs) in self.saved.items():
            md = self.mods[n].__dict__
            if len(md) != len(d) or any(md.get(k, self) is not v for k, v in d.items()):
                md.clear()
                md.update(d)
            for v, s in cs:
                if isinstance(v, type):
                    cur = v.__dict__
                    for k in list(cur):
                        if k not in s:
                            delattr(v, k)
                    for k, x in s.items():
                        if cur.get(k) is not x and k not in ('__dict__', '__weakref__', '__doc__'):
                            setattr(v, k, x)
                elif type(v) is dict:
                    if v != s or len(v) != len(s):
                        v.clear()
                        v.update(s)
                elif type(v) is list:
                    v[:] = s
                elif type(v) is set:
                    v.clear()
                    v.update(s)
                else:
                    v.__dict__.clear()
                    v.__dict__.update(s)
