"""Harness API.  A harness function takes one argument cx and runs unchanged in two modes:

  symbolic  (SymCx, under the engine; inputs are symbolic, checks are solver queries)
  native    (NatCx, plain CPython over a plain import of /repo; inputs come from a solver model)
"""
import importlib
import io
import os
import shutil
import struct
import sys
import tempfile
from fractions import Fraction

from . import engine as E

REPO = os.environ.get('SYMX_REPO', '/repo')


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class NoSuchInput(Exception):
    pass


class VFS(object):
    """Virtual files below one root (symbolic presence, symbolic content)."""

    def __init__(self, root):
        self.root = root
        self.files = {}      # abs path -> (present, content)
        self.dirs = {}       # abs path -> present
        self.zips = {}       # abs path -> (present, [(name, present, content)])

    def _own(self, p):
        p = os.path.normpath(p)
        return p if p == self.root or p.startswith(self.root + '/') else None

    def exists(self, p):
        p = self._own(p)
        if p is None:
            return None
        for d in (self.files, self.dirs, self.zips):
            if p in d:
                v = d[p]
                return bool(v[0] if isinstance(v, tuple) else v) and self._parent(p)
        return False

    def _parent(self, p):
        d = os.path.dirname(p)
        if d in self.dirs:
            return bool(self.dirs[d])
        return True

    def isfile(self, p):
        p = self._own(p)
        return p not in self.dirs

    def open(self, p, mode):
        p = self._own(p)
        if p is None:
            return None
        if not self.exists(p) or 'w' in mode or 'a' in mode:
            raise FileNotFoundError(2, 'No such file or directory', p)
        if p in self.dirs:
            raise IsADirectoryError(21, 'Is a directory', p)
        if p in self.zips:
            return self.open_zip(p)
        return VFile(self.files[p][1], 'b' in mode)

    def open_zip(self, p):
        p = self._own(p)
        if p is None:
            return None
        if not self.exists(p):
            raise FileNotFoundError(2, 'No such file or directory', p)
        if p not in self.zips:
            import io
            c = self.files[p][1]
            return io.BytesIO(c if isinstance(c, bytes) and type(c) is bytes else b'')
        return make_zip([(n, c) for n, pr, c in self.zips[p][1] if bool(pr)])


def make_zip(members):
    import io
    import zipfile
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for n, c in members:
            z.writestr(n, c)
    b.seek(0)
    return b


class VFile(object):
    def __init__(self, content, binary):
        from . import vals as V
        c = content
        if binary:
            if isinstance(c, str):
                c = V.to_bytes(c, 'utf-8') if V.is_sym(c) or not c.isascii() else c.encode()
        else:
            if not isinstance(c, str):
                c = c.decode()
        self.c = c

    def read(self, n=-1):
        c, self.c = self.c, self.c[:0]
        return c

    def lines(self):
        c = self.read()
        nl = b'\n' if isinstance(c, bytes) else '\n'
        parts = c.split(nl)
        out = [p + nl for p in parts[:-1]]
        if len(parts[-1]):
            out.append(parts[-1])
        return out

    def readlines(self):
        return self.lines()

    def __iter__(self):
        return iter(self.lines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Printed(object):
    def __init__(self, out):
        self.out = out

    def write(self, x):
        self.out.append(x)

    def flush(self):
        pass


def run_script(fn, path, args):
    old, sys.argv = sys.argv, [path] + list(args)
    try:
        fn()
        return 0
    except SystemExit as e:
        return 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    finally:
        sys.argv = old


class Base(object):
    def raises(self, fn, *exc):
        """(value, None) or (None, exception) when fn raises one of exc."""
        try:
            return fn(), None
        except exc as e:
            return None, e


class SymCx(E.Ctx, Base):
    native = False
    world = None

    # ---- inputs
    def int(self, name, lo, hi):
        from . import vals as V
        import z3
        if lo == hi:
            return lo
        name = self.uname(name)
        w, sg = V.rng(lo, hi)
        e = z3.BitVec(name, w)
        self.inputs.append((name, 'int', (e, sg)))
        # state the range (free when it is the full range of the width)
        full = (0, (1 << w) - 1) if not sg else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        v = V.SInt.from_bv(e, sg, lo, hi)
        if (lo, hi) != full:
            c = z3.And(e >= lo, e <= hi) if sg else z3.And(z3.UGE(e, lo), z3.ULE(e, hi))
            self.add(c)
        return v

    def mint(self, name, lo, hi):
        """mathematical-integer (Int sort) input, for linear arithmetic with floats"""
        from . import vals as V
        import z3
        if lo == hi:
            return lo
        name = self.uname(name)
        e = z3.Int(name)
        self.inputs.append((name, 'int', (e, True)))
        self.add(z3.And(e >= lo, e <= hi))
        return V.SInt.from_ie(e, lo, hi)

    def bool(self, name):
        from . import vals as V
        import z3
        name = self.uname(name)
        e = z3.Bool(name)
        self.inputs.append((name, 'bool', e))
        return V.SBool(e)

    def bytes(self, name, n):
        from . import vals as V
        import z3
        name = self.uname(name)
        es = [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]
        self.inputs.append((name, 'bytes', es))
        return V.mkbytes([V.SInt.from_bv(e, False, 0, 255) for e in es])

    def chars(self, name, n, lo=33, hi=126, exclude=''):
        from . import vals as V
        import z3
        name = self.uname(name)
        es = [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]
        self.inputs.append((name, 'bytes', es))
        for e in es:
            self.add(z3.And(z3.UGE(e, lo), z3.ULE(e, hi), *[e != ord(x) for x in exclude]))
        return V.mkstr([V.SInt.from_bv(e, False, 0, 255) for e in es])

    def f32(self, name):
        from . import vals as V
        return V.SFloat(self.int(name, 0, 0xffffffff))

    def choice(self, name, opts):
        """one of opts; the index is a solver variable, split completely by the solver"""
        import z3
        name = self.uname(name)
        n = len(opts)
        if n == 1:
            self.inputs.append((name, 'choice', 0))
            return opts[0]
        w = (n - 1).bit_length()
        e = z3.BitVec(name, w)
        if n != 1 << w:
            self.add(z3.ULT(e, n))
        i = self.enum(e, 1 << 20)
        self.inputs.append((name, 'choice', i))
        return opts[i]

    def fork(self, v):
        """concrete value of v on this path (complete case split)"""
        from . import vals as V
        return V.conc(v)

    # ---- assertions
    def check(self, cond, label):
        from . import vals as V
        self.check_labels[label] = self.check_labels.get(label, 0) + 1
        if type(cond) is V.SBool:
            self.check_expr(cond.e, label)
        elif cond:
            self.checks_struct += 1
        else:
            self.fail(label)

    def assume(self, cond):
        from . import vals as V
        if type(cond) is V.SBool:
            self.add(cond.e)
        elif not cond:
            raise E.PathEnd()

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, name, value):
        self.log.append((name, value))

    def mod(self, name):
        return self.world.load(name)

    def script(self, path, args):
        """run a program of the repository: (text printed, exit status)"""
        t, code = self.printed(lambda: run_script(lambda: self.world.script(os.path.join(REPO, path)), path, args))
        return t, code

    def printed(self, f):
        """(text printed by f, result of f)"""
        out = self.out = []
        old, sys.stdout = sys.stdout, Printed(out)
        try:
            r = f()
        finally:
            sys.stdout = old
            self.out = None
        t = ''
        for x in out:
            t = t + x
        return t, r

    # ---- combinators that do not fork
    def all(self, xs):
        from . import vals as V
        return V.sand(list(xs))

    def any(self, xs):
        from . import vals as V
        return V.sor(list(xs))

    def not_(self, x):
        from . import vals as V
        return V.snot(x)

    def implies(self, a, b):
        from . import vals as V
        return V.sor([V.snot(a), b])

    def iff(self, a, b):
        from . import vals as V
        return V.sor([V.sand([a, b]), V.sand([V.snot(a), V.snot(b)])])

    def ite(self, c, a, b):
        from . import vals as V
        if type(c) is not V.SBool:
            return a if c else b
        return V.ite(c, a, b)

    def same(self, a, b):
        from . import vals as V
        from .models import pytype
        ta, tb = pytype(a), pytype(b)
        if ta is not tb and not (ta in (bytes, bytearray) and tb in (bytes, bytearray)):
            return False
        if ta in (list, tuple):
            if len(a) != len(b):
                return False
            return V.sand([self.same(x, y) for x, y in zip(a, b)])
        if ta is dict:
            if len(a) != len(b):
                return False
            rs = []
            for k in a:
                if k not in b:
                    return False
                rs.append(self.same(a[k], b[k]))
            return V.sand(rs)
        if ta is float:
            if type(a) is V.SFloat:
                return a.same(b)
            if type(b) is V.SFloat:
                return b.same(a)
            if not V.is_sym(a) and not V.is_sym(b):
                return a == b or (a != a and b != b)
        if ta is str:
            a = V.lift(a)
            b = V.lift(b)
        r = a == b
        if r is True:
            return raw_same(a, b)
        return r

    def eq(self, a, b):
        """numeric/text equality without type strictness"""
        return a == b

    def within(self, x, num, scale, slack, rel=50):
        """|x - num*scale| <= slack + |num*scale| * 2^-rel, over the reals (scale, slack: Fractions)"""
        from . import vals as V
        import z3

        def real(v):
            if type(v) is V.SReal:
                return v.r
            if type(v) is V.SInt:
                return z3.ToReal(v.int_expr())
            if type(v) is V.SFloat:
                v = v.concrete()
            f = Fraction(v)
            return z3.Q(f.numerator, f.denominator)
        scale, slack = Fraction(scale), Fraction(slack)
        y = real(num) * z3.Q(scale.numerator, scale.denominator)
        b = z3.Q(slack.numerator, slack.denominator) + z3.If(y >= 0, y, -y) * z3.Q(1, 2 ** rel)
        d = real(x) - y
        return V.sb(z3.And(d <= b, -d <= b))

    def file_tree(self, files=(), dirs=(), zips=(), again=False):
        """Create files (again: in place of those created before).  files: (relpath, present, content); dirs: (relpath, present);
        zips: (relpath, present, [(member, present, content)]).  Returns the root path."""
        root = '/@vfs'
        fs = VFS(root)
        fs.dirs[root] = True
        for p, pr in dirs:
            fs.dirs[root + '/' + p] = pr
        for p, pr, c in files:
            fs.files[root + '/' + p] = (pr, c)
        for p, pr, m in zips:
            fs.zips[root + '/' + p] = (pr, m)
        self.fs = fs
        return root


def raw_same(a, b):
    """Structurally equal symbolic values: state the equality for the solver all the same."""
    from . import vals as V
    import z3
    ia = getattr(a, 'items', None) if V.is_sym(a) else None
    ib = getattr(b, 'items', None) if V.is_sym(b) else None
    if ia is None and ib is None:
        if type(a) is V.SInt and type(b) is V.SInt and a.ie is None and b.ie is None and a.w == b.w:
            return V.SBool(a.e == b.e)
        return True
    if ia is None or ib is None or len(ia) != len(ib):
        return True
    eqs = []
    for x, y in zip(ia, ib):
        if type(x) is V.SInt and type(y) is V.SInt and x.ie is None and y.ie is None and x.w == y.w:
            eqs.append(x.e == y.e)
    return V.SBool(z3.And(*eqs)) if eqs else True


class NatCx(Base):
    native = True

    def __init__(self, params, inputs):
        self.p = params
        self.vals = dict((n, v) for n, v in inputs)
        self.names = {}
        self.reached = {}
        self.log = []
        self.tmp = None

    def _get(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        name = name if n == 0 else '%s#%d' % (name, n)
        if name not in self.vals:
            raise NoSuchInput(name)
        return self.vals[name]

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self._get(name)
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v
    mint = int

    def bool(self, name):
        return bool(self._get(name))

    def bytes(self, name, n):
        v = self._get(name)
        if len(v) != n:
            raise AssumeFailed(name)
        return bytes(v)

    def chars(self, name, n, lo=33, hi=126, exclude=''):
        v = self._get(name)
        if len(v) != n or not all(lo <= x <= hi and chr(x) not in exclude for x in v):
            raise AssumeFailed(name)
        return ''.join(chr(x) for x in v)

    def f32(self, name):
        return struct.unpack('>f', struct.pack('>I', self._get(name)))[0]

    def choice(self, name, opts):
        return opts[self._get(name)]

    def fork(self, v):
        return v

    def check(self, cond, label):
        if not cond:
            raise CheckFailed(label)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, name, value):
        self.log.append((name, value))

    def mod(self, name):
        return importlib.import_module(name)

    def script(self, path, args):
        full = os.path.join(REPO, path)

        def go():
            with open(full, 'rb') as f:
                code = compile(f.read(), full, 'exec', dont_inherit=True)
            exec(code, {'__name__': '__main__', '__file__': full, '__builtins__': __builtins__})
        return self.printed(lambda: run_script(go, path, args))

    def printed(self, f):
        out = io.StringIO()
        old, sys.stdout = sys.stdout, out
        try:
            r = f()
        finally:
            sys.stdout = old
        return out.getvalue(), r

    def all(self, xs):
        return all(list(xs))

    def any(self, xs):
        return any(list(xs))

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        ta, tb = type(a), type(b)
        if ta is not tb and not (ta in (bytes, bytearray) and tb in (bytes, bytearray)):
            return False
        if ta in (list, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if ta is dict:
            return len(a) == len(b) and all(k in b and self.same(a[k], b[k]) for k in a)
        if ta is float:
            return a == b or (a != a and b != b)
        return a == b

    def eq(self, a, b):
        return a == b

    def within(self, x, num, scale, slack, rel=50):
        y = Fraction(num) * Fraction(scale)
        return abs(Fraction(x) - y) <= Fraction(slack) + abs(y) / 2 ** rel

    def file_tree(self, files=(), dirs=(), zips=(), again=False):
        if again:
            for n in os.listdir(self.tmp):
                p = os.path.join(self.tmp, n)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        else:
            self.tmp = tempfile.mkdtemp(prefix='symx-vfs-')
        root = self.tmp
        dd = dict(dirs)
        for p, pr in dirs:
            if pr:
                os.makedirs(os.path.join(root, p), exist_ok=True)

        def ok(p):
            d = os.path.dirname(p)
            return not (d in dd and not dd[d])
        for p, pr, c in files:
            if pr and ok(p):
                os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
                with open(os.path.join(root, p), 'wb') as f:
                    f.write(c.encode() if isinstance(c, str) else bytes(c))
        for p, pr, m in zips:
            if pr and ok(p):
                with open(os.path.join(root, p), 'wb') as f:
                    f.write(make_zip([(n, c) for n, mp, c in m if mp]).read())
        return root

    def cleanup(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None
