"""Symbolic values.  SInt models Python's unbounded int exactly (widths grow with intervals)."""
import re
import z3
from fractions import Fraction
from . import engine as E

BVV = z3.BitVecVal


def ctx():
    return E.cur


# ---------------------------------------------------------------- booleans
class SBool(object):
    __slots__ = ('e',)
    __class__ = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.cur.branch(self.e)

    def __and__(self, o):
        if type(o) is SBool:
            return sb(z3.And(self.e, o.e))
        if type(o) is bool:
            return self if o else False
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SBool:
            return sb(z3.Or(self.e, o.e))
        if type(o) is bool:
            return True if o else self
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SBool:
            return sb(z3.Xor(self.e, o.e))
        if type(o) is bool:
            return snot(self) if o else self
        return self._i() ^ o
    __rxor__ = __xor__

    def _i(self):
        return SInt.from_bv(z3.If(self.e, BVV(1, 1), BVV(0, 1)), False, 0, 1)

    def __eq__(self, o):
        if type(o) is SBool:
            return sb(self.e == o.e)
        if type(o) is bool:
            return self if o else snot(self)
        return self._i() == o

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __repr__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def sb(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def snot(b):
    if type(b) is SBool:
        e = b.e
        if z3.is_not(e):
            return SBool(e.arg(0))
        return SBool(z3.Not(e))
    return not b


def sand(xs):
    es = []
    for x in xs:
        if type(x) is SBool:
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SBool(es[0] if len(es) == 1 else z3.And(es))


def sor(xs):
    es = []
    for x in xs:
        if type(x) is SBool:
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SBool(es[0] if len(es) == 1 else z3.Or(es))


def bexpr(b):
    return b.e if type(b) is SBool else z3.BoolVal(bool(b))


# ---------------------------------------------------------------- integers
def rng(lo, hi):
    """(width, signed) able to hold lo..hi."""
    if lo >= 0:
        return max(1, hi.bit_length()), False
    return max((-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else 0) + 1, True


def build_bv(bits):
    """z3 BV from affine bit masks (LSB first)."""
    c = E.cur
    atoms = c.atoms
    parts = []
    i = 0
    n = len(bits)
    while i < n:
        m = bits[i]
        if m < 2:
            v = m
            j = i + 1
            while j < n and bits[j] < 2:
                v |= bits[j] << (j - i)
                j += 1
            parts.append(BVV(v, j - i))
            i = j
            continue
        if not (m & 1) and not (m & (m - 1)):
            base, pos = atoms[m.bit_length() - 2]
            j = i + 1
            p = pos
            while j < n:
                m2 = bits[j]
                if m2 < 2 or (m2 & (m2 - 1)):
                    break
                b2, p2 = atoms[m2.bit_length() - 2]
                if p2 != p + 1 or b2.get_id() != base.get_id():
                    break
                p = p2
                j += 1
            if pos == 0 and p + 1 == base.size():
                parts.append(base)
            else:
                parts.append(z3.Extract(p, pos, base))
            i = j
            continue
        parts.append(xor_bit(m))
        i += 1
    parts.reverse()
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def xor_bit(m):
    c = E.cur
    cached = c.atomcache.get(('x', m))
    if cached is not None:
        return cached
    e = None
    inv = m & 1
    mm = m >> 1
    k = 0
    while mm:
        tz = (mm & -mm).bit_length() - 1
        k += tz
        base, pos = c.atoms[k]
        b = base if base.size() == 1 else z3.Extract(pos, pos, base)
        e = b if e is None else e ^ b
        mm >>= tz + 1
        k += 1
    if inv:
        e = ~e
    c.atomcache[('x', m)] = e
    return e


def linear_zero(rows):
    """all xor-combinations in rows are 0 (Gauss-Jordan over GF(2) first)"""
    piv = []
    for r in rows:
        for b, p in piv:
            if (r >> b) & 1:
                r ^= p
        if r == 0:
            continue
        if r == 1:
            return False
        b = r.bit_length() - 1
        piv = [(b2, p ^ r if (p >> b) & 1 else p) for b2, p in piv]
        piv.append((b, r))
    zero = z3.BitVecVal(0, 1)
    used = 0
    for r in rows:
        used |= r
    if bin(used).count('1') > 2 * len(rows):
        # many unknowns: keep the original rows so that equal comparisons stay syntactically equal
        return sand([sb(xor_bit(r) == zero) for r in rows])
    return sand([sb(xor_bit(p) == zero) for b, p in piv])


def from_bits(bits, sg):
    """Normalised value from bits: int when constant."""
    bits = list(bits)
    if sg:
        while len(bits) > 1 and bits[-1] == bits[-2]:
            bits.pop()
        if bits[-1] == 0:
            sg = False
    if not sg:
        while len(bits) > 1 and bits[-1] == 0:
            bits.pop()
    const = True
    for b in bits:
        if b > 1:
            const = False
            break
    if const:
        v = 0
        for i, b in enumerate(bits):
            v |= b << i
        if sg and bits[-1]:
            v -= 1 << len(bits)
        return v
    lo = hi = 0
    w = len(bits)
    for i, b in enumerate(bits):
        if sg and i == w - 1:
            if b == 1:
                lo -= 1 << i
                hi -= 1 << i
            elif b > 1:
                lo -= 1 << i
        else:
            if b == 1:
                lo += 1 << i
                hi += 1 << i
            elif b > 1:
                hi += 1 << i
    r = SInt.__new__(SInt)
    r.bits = bits
    r._e = None
    r.w = w
    r.sg = sg
    r.lo = lo
    r.hi = hi
    r.ie = None
    r.tag = None
    return r


class SInt(object):
    __slots__ = ('bits', '_e', 'w', 'sg', 'lo', 'hi', 'ie', 'tag')
    __class__ = int

    @staticmethod
    def from_bv(e, sg, lo, hi):
        if lo == hi:
            return lo
        w, s = rng(lo, hi)
        size = e.size()
        if w < size:
            e = z3.Extract(w - 1, 0, e)
        elif w > size:
            e = z3.SignExt(w - size, e) if sg else z3.ZeroExt(w - size, e)
        r = SInt.__new__(SInt)
        r.bits = None
        r._e = e
        r.w = w
        r.sg = s
        r.lo = lo
        r.hi = hi
        r.ie = None
        r.tag = None
        return r

    @staticmethod
    def from_ie(ie, lo, hi):
        if lo is not None and lo == hi:
            return lo
        r = SInt.__new__(SInt)
        r.bits = None
        r._e = None
        r.w = None
        r.sg = None
        r.lo = lo
        r.hi = hi
        r.ie = ie
        r.tag = None
        return r

    # ---- representations
    @property
    def e(self):
        if self._e is None:
            if self.bits is None:
                w, s = rng(self.lo, self.hi)
                self.w, self.sg = w, s
                self._e = z3.Int2BV(self.ie, w)
            else:
                self._e = build_bv(self.bits)
        return self._e

    def getbits(self, W=None):
        if self.bits is None:
            e = self.e
            c = E.cur
            if z3.is_bv_value(e):
                v = e.as_long()
                self.bits = [(v >> i) & 1 for i in range(self.w)]
            else:
                c.keep.append(e)
                self.bits = [c.atom(e, i) for i in range(self.w)]
        b = self.bits
        if W is None or W == len(b):
            return b
        if W < len(b):
            return b[:W]
        return b + [b[-1] if self.sg else 0] * (W - len(b))

    def bv(self, W):
        e = self.e
        w = self.w
        if W == w:
            return e
        if W < w:
            return z3.Extract(W - 1, 0, e)
        return z3.SignExt(W - w, e) if self.sg else z3.ZeroExt(W - w, e)

    def int_expr(self):
        if self.ie is None:
            return z3.BV2Int(self.e, self.sg)
        return self.ie

    def key_expr(self):
        return self.ie if self.ie is not None and self._e is None else self.e

    # ---- concretisation
    def concrete(self, cap=None):
        c = E.cur
        if self.ie is not None:
            return c.enum(self.ie, cap)
        v = c.enum(self.e, cap)
        if self.sg and v >> (self.w - 1):
            v -= 1 << self.w
        return v

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self.concrete()

    def __hash__(self):
        if E.cur is not None and id(self) in E.cur.symkeys:
            return 0x51ed
        return hash(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return E.cur.placeholder(Num('d', self))
    __str__ = __repr__

    def __format__(self, spec):
        return ''.join(E.cur.placeholder(i) if type(i) is not str else i for i in fmt_int(self, spec))

    def bit_length(self):
        return self.concrete().bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if byteorder == 'big':
            return pack_int(self, length, signed, OverflowError('int too big to convert'))
        return pack_int(self, length, signed, OverflowError('int too big to convert'))[::-1]

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    # ---- arithmetic
    def _arith(self, o, op, rev=False):
        t = type(o)
        if t is SBool:
            o = o._i()
            t = type(o)
        if t is bool or t is not int and t is not SInt and issubclass(t, int):
            o = int(o)
            t = int
        if t is float:
            a = to_real(self)
            return a._arith(o, op, rev)
        if t is SReal:
            a = to_real(self)
            return a._arith(o, op, rev)
        if t is not int and t is not SInt:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        alo, ahi = (a, a) if type(a) is int else (a.lo, a.hi)
        blo, bhi = (b, b) if type(b) is int else (b.lo, b.hi)
        if op == '+':
            lo, hi = alo + blo, ahi + bhi
        elif op == '-':
            lo, hi = alo - bhi, ahi - blo
        else:
            ps = (alo * blo, alo * bhi, ahi * blo, ahi * bhi)
            lo, hi = min(ps), max(ps)
        if (type(a) is SInt and a.ie is not None) or (type(b) is SInt and b.ie is not None):
            x = a if type(a) is int else a.int_expr()
            y = b if type(b) is int else b.int_expr()
            r = x + y if op == '+' else x - y if op == '-' else x * y
            return SInt.from_ie(r, lo, hi)
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if type(y) is int:
                    if y == 0:
                        return 0
                    if y == 1:
                        return x
                    if y > 0 and not (y & (y - 1)):
                        return x << (y.bit_length() - 1)
        elif op == '+':
            if type(b) is int and b == 0:
                return a
            if type(a) is int and a == 0:
                return b
            if alo >= 0 and blo >= 0:
                # disjoint bits: plain concatenation
                ab = a.getbits() if type(a) is SInt else int_bits(a)
                bb = b.getbits() if type(b) is SInt else int_bits(b)
                n = max(len(ab), len(bb))
                ab = ab + [0] * (n - len(ab))
                bb = bb + [0] * (n - len(bb))
                if all(x == 0 or y == 0 for x, y in zip(ab, bb)):
                    r = from_bits([x or y for x, y in zip(ab, bb)], False)
                    if type(r) is SInt and lo >= r.lo and hi <= r.hi and rng(lo, hi) == rng(r.lo, r.hi):
                        r.lo, r.hi = lo, hi
                    return r
        elif type(b) is int and b == 0:
            return a
        w, sg = rng(lo, hi)
        x = a.bv(w) if type(a) is SInt else BVV(a, w)
        y = b.bv(w) if type(b) is SInt else BVV(b, w)
        r = x + y if op == '+' else x - y if op == '-' else x * y
        return SInt.from_bv(r, sg, lo, hi)

    def __add__(self, o): return self._arith(o, '+')
    def __radd__(self, o): return self._arith(o, '+', True)
    def __sub__(self, o): return self._arith(o, '-')
    def __rsub__(self, o): return self._arith(o, '-', True)
    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and type(o) not in (SStr,):
            return o * self.concrete()
        return self._arith(o, '*')
    __rmul__ = __mul__
    def __neg__(self): return 0 - self
    def __pos__(self): return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.ie is not None:
            return SInt.from_ie(z3.If(self.ie >= 0, self.ie, -self.ie), 0, max(-self.lo, self.hi))
        hi = max(-self.lo, self.hi)
        w = max(rng(self.lo, self.hi)[0], hi.bit_length()) + 1
        x = self.bv(w)
        return SInt.from_bv(z3.If(x < 0, -x, x), False, 0, hi)

    def __truediv__(self, o):
        return to_real(self)._arith(o, '/')

    def __rtruediv__(self, o):
        return to_real(self)._arith(o, '/', True)

    def __floordiv__(self, o):
        t = type(o)
        if t is SInt:
            o = o.concrete()
        elif t is SReal or t is float:
            return NotImplemented
        elif t is not int and t is not bool:
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self) // (-o)
        if self.ie is not None:
            return SInt.from_ie(self.ie / o, self.lo // o, self.hi // o)
        if not (o & (o - 1)):
            return self >> (o.bit_length() - 1)
        lo, hi = self.lo // o, self.hi // o
        if self.lo >= 0:
            w = max(self.w, o.bit_length())
            return SInt.from_bv(z3.UDiv(self.bv(w), BVV(o, w)), False, lo, hi)
        w = max(self.w, o.bit_length()) + 2
        x = self.bv(w)
        y = BVV(o, w)
        q = z3.If(x >= 0, z3.UDiv(x, y), -z3.UDiv(-x + y - 1, y))
        return SInt.from_bv(q, True, lo, hi)

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __mod__(self, o):
        t = type(o)
        if t is SInt:
            o = o.concrete()
        elif t is not int and t is not bool:
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o > 0 and self.ie is None and not (o & (o - 1)):
            return self & (o - 1)
        if o > 0 and self.ie is not None:
            return SInt.from_ie(self.ie % o, 0, o - 1)
        if o > 0 and self.lo >= 0:
            w = max(self.w, o.bit_length())
            return SInt.from_bv(z3.URem(self.bv(w), BVV(o, w)), False, 0, min(self.hi, o - 1))
        return self - (self // o) * o

    def __rmod__(self, o):
        return o % self.concrete()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if type(o) is SInt:
            o = o.concrete()
        if o == 2:
            return self * self
        return self.concrete() ** o

    def __rpow__(self, o):
        return o ** self.concrete()

    # ---- bitwise
    def _bitop(self, o, op):
        t = type(o)
        if t is SBool:
            o = o._i()
            t = type(o)
        if t is bool or t is not int and t is not SInt and issubclass(t, int):
            o = int(o)
            t = int
        if t is not int and t is not SInt:
            return NotImplemented
        if t is int:
            if op == '&' and o >= 0:
                n = max(1, o.bit_length())
                b = self.getbits(n)
                return from_bits([x if (o >> i) & 1 else 0 for i, x in enumerate(b)], False)
            osg = o < 0
            ow = rng(o, o)[0]
        else:
            osg = o.sg if o.ie is None else o.lo < 0
            ow = len(o.getbits())
        sg = self.lo < 0 or osg
        a = self.getbits()
        W = max(len(a), ow) + (1 if sg else 0)
        a = self.getbits(W)
        b = o.getbits(W) if t is SInt else [(o >> i) & 1 for i in range(W)]
        if op == '^':
            return from_bits([x ^ y for x, y in zip(a, b)], sg)
        out = []
        for x, y in zip(a, b):
            if op == '&':
                if x == 0 or y == 0:
                    r = 0
                elif x == 1:
                    r = y
                elif y == 1 or x == y:
                    r = x
                elif x ^ y == 1:
                    r = 0
                else:
                    r = None
            else:
                if x == 1 or y == 1:
                    r = 1
                elif x == 0:
                    r = y
                elif y == 0 or x == y:
                    r = x
                elif x ^ y == 1:
                    r = 1
                else:
                    r = None
            if r is None:
                break
            out.append(r)
        if len(out) == W:
            return from_bits(out, sg)
        x = self.bv(W)
        y = o.bv(W) if t is SInt else BVV(o, W)
        e = x & y if op == '&' else x | y
        if sg:
            lo, hi = -(1 << (W - 1)), (1 << (W - 1)) - 1
        else:
            lo, hi = 0, (1 << W) - 1
        return SInt.from_bv(e, sg, lo, hi)

    def __and__(self, o): return self._bitop(o, '&')
    __rand__ = __and__
    def __or__(self, o): return self._bitop(o, '|')
    __ror__ = __or__
    def __xor__(self, o): return self._bitop(o, '^')
    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self if self.ie is not None else from_bits([b ^ 1 for b in self.getbits((self.w or len(self.getbits())) + 1)], True)

    def __lshift__(self, o):
        if type(o) is SInt:
            o = o.concrete()
        if o < 0:
            raise ValueError('negative shift count')
        if self.ie is not None:
            return self * (1 << o)
        return from_bits([0] * o + self.getbits(), self.sg)

    def __rlshift__(self, o):
        return o << self.concrete()

    def __rshift__(self, o):
        if type(o) is SInt:
            o = o.concrete()
        if o < 0:
            raise ValueError('negative shift count')
        if self.ie is not None:
            return self // (1 << o)
        b = self.getbits()
        if o >= len(b):
            return from_bits([b[-1]], True) if self.sg else 0
        return from_bits(b[o:], self.sg)

    def __rrshift__(self, o):
        return o >> self.concrete()

    # ---- comparison
    def _cmp(self, o, op):
        t = type(o)
        if t is SBool:
            o = o._i()
            t = type(o)
        if t is bool or t is not int and t is not SInt and issubclass(t, int):
            o = int(o)
            t = int
        if t is float:
            if o == o and abs(o) != float('inf') and o == int(o):
                o = int(o)
                t = int
            else:
                return to_real(self)._cmp(o, op)
        if t is SReal:
            return to_real(self)._cmp(o, op)
        if t is not int and t is not SInt:
            return NotImplemented
        olo, ohi = (o, o) if t is int else (o.lo, o.hi)
        lo, hi = self.lo, self.hi
        if op == '==':
            if lo > ohi or hi < olo:
                return False
        elif op == '<':
            if hi < olo:
                return True
            if lo >= ohi:
                return False
        elif op == '<=':
            if hi <= olo:
                return True
            if lo > ohi:
                return False
        if self.ie is not None or (t is SInt and o.ie is not None):
            if t is SInt and self is o:
                return op != '<'
            x = self.int_expr()
            y = o if t is int else o.int_expr()
            return sb(z3.simplify(x == y) if op == '==' else (x < y if op == '<' else x <= y))
        wa, sa = rng(min(lo, olo), max(hi, ohi))
        if op == '==':
            a = self.bits
            b = o.bits if t is SInt else int_bits(o, wa)
            if a is not None and b is not None:
                a = self.getbits(wa)
                b = o.getbits(wa) if t is SInt else b
                ds = []
                multi = False
                for p, q in zip(a, b):
                    d = p ^ q
                    if d:
                        if d == 1:
                            return False
                        ds.append(d)
                        for m in (p, q):
                            m &= ~1
                            multi = multi or m & (m - 1)
                if not ds:
                    return True
                if multi:
                    return linear_zero(ds)
            y = o.bv(wa) if t is SInt else BVV(o, wa)
            return sb(self.bv(wa) == y)
        x = self.bv(wa)
        y = o.bv(wa) if t is SInt else BVV(o, wa)
        if op == '<':
            return sb(x < y if sa else z3.ULT(x, y))
        return sb(x <= y if sa else z3.ULE(x, y))

    def __eq__(self, o): return self._cmp(o, '==')

    def __ne__(self, o):
        r = self._cmp(o, '==')
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self._cmp(o, '<=')
        return r if r is NotImplemented else snot(r)

    def __ge__(self, o):
        r = self._cmp(o, '<')
        return r if r is NotImplemented else snot(r)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __trunc__
    __ceil__ = __trunc__


def int_bits(v, W=None):
    if W is None:
        W = max(1, v.bit_length())
    return [(v >> i) & 1 for i in range(W)]


def ite(c, a, b):
    """Integer if-then-else."""
    if type(c) is not SBool:
        return a if c else b
    if type(a) is int and type(b) is int and a == b:
        return a
    alo, ahi = (a, a) if type(a) is int else (a.lo, a.hi)
    blo, bhi = (b, b) if type(b) is int else (b.lo, b.hi)
    lo, hi = min(alo, blo), max(ahi, bhi)
    if (type(a) is SInt and a.ie is not None) or (type(b) is SInt and b.ie is not None):
        x = a if type(a) is int else a.int_expr()
        y = b if type(b) is int else b.int_expr()
        return SInt.from_ie(z3.If(c.e, x, y), lo, hi)
    w, sg = rng(lo, hi)
    x = a.bv(w) if type(a) is SInt else BVV(a, w)
    y = b.bv(w) if type(b) is SInt else BVV(b, w)
    return SInt.from_bv(z3.If(c.e, x, y), sg, lo, hi)


def pack_int(v, n, signed, err):
    """Big-endian bytes of v; raises err when out of range (forks on symbolic range)."""
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if type(v) is SBool:
        v = v._i()
    if type(v) in (int, bool):
        if not lo <= v <= hi:
            raise err
        return int(v).to_bytes(n, 'big', signed=signed)
    if v.lo < lo and bool(v < lo):
        raise err
    if v.hi > hi and bool(v > hi):
        raise err
    if v.ie is not None:
        out = []
        for k in range(n - 1, -1, -1):
            x = SInt.from_ie((v.ie / (1 << (8 * k))) % 256, 0, 255)
            x.tag = ('byteof', v, k, n, signed)
            out.append(x)
        return mkbytes(out)
    b = v.getbits(8 * n)
    return mkbytes([from_bits(b[8 * k:8 * k + 8], False) for k in range(n - 1, -1, -1)])


def unpack_int(items, signed):
    """Big-endian integer from byte items."""
    n = len(items)
    if all(type(i) is int for i in items):
        return int.from_bytes(bytes(items), 'big', signed=signed)
    t = items[0].tag if type(items[0]) is SInt else None
    if t and t[0] == 'byteof' and t[3] == n and t[2] == n - 1:
        v = t[1]
        if all(type(i) is SInt and i.tag and i.tag[0] == 'byteof' and i.tag[1] is v and i.tag[2] == n - 1 - k
               for k, i in enumerate(items)):
            if signed == t[4] or (v.lo >= 0 and v.hi < (1 << (8 * n - 1))):
                return v
            if signed:      # packed unsigned, read signed
                return SInt.from_ie(z3.If(v.ie >= (1 << (8 * n - 1)), v.ie - (1 << (8 * n)), v.ie),
                                    -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
            return SInt.from_ie(z3.If(v.ie < 0, v.ie + (1 << (8 * n)), v.ie), 0, (1 << (8 * n)) - 1)
    if any(type(i) is SInt and i.ie is not None for i in items):
        r = 0
        for i in items:
            r = r * 256 + i
        if signed:
            r = ite(r >= (1 << (8 * n - 1)), r - (1 << (8 * n)), r)
        return r
    bits = []
    for i in reversed(items):
        bits += int_bits(i, 8) if type(i) is int else i.getbits(8)
    return from_bits(bits, signed)


# ---------------------------------------------------------------- numeric text
class Num(object):
    """Text form of a number: kind 'd' decimal (optional zero padding), 'x'/'X' hex, 'r' float repr."""
    __slots__ = ('kind', 'v', 'width')

    def __init__(self, kind, v, width=0):
        self.kind = kind
        self.v = v
        self.width = width

    def length(self):
        if self.kind == 'd' and type(self.v) is SInt and self.v.lo >= 0:
            for k in range(max(1, self.width), 25):
                if self.v.hi < 10 ** k:
                    if k == max(1, self.width):
                        return k
                    break
            d = len(str(self.v.hi))
            if len(str(self.v.lo)) == d:
                return d
        return None

    def expand(self):
        """Digit characters (forks on the number of digits)."""
        v = self.v
        if self.kind in 'xX':
            out = []
            n = max(1, self.width)
            while bool(v >= 16 ** n):
                n += 1
            for k in range(n - 1, -1, -1):
                out.append(hexchar((v >> (4 * k)) & 15, self.kind == 'X'))
            return out
        if self.kind == 'd' and type(v) is SInt:
            out = []
            w = self.width
            if v.lo < 0 and bool(v < 0):
                out.append('-')
                v = -v
                w -= 1
                if type(v) is SInt and v.lo < 0:
                    v = abs(v)
            if type(v) is int:
                return out + list(str(v).rjust(w, '0'))
            n = 1
            while v.hi >= 10 ** n and bool(v >= 10 ** n):
                n += 1
            n = max(n, w)
            for k in range(n - 1, -1, -1):
                dgt = (v // (10 ** k)) % 10
                if type(dgt) is int:
                    out.append(chr(48 + dgt))
                else:
                    c = dgt + 48
                    out.append(c if type(c) is SInt else chr(c))
            return out
        return list(self.concrete())

    def concrete(self):
        v = self.v
        if type(v) is SInt:
            v = v.concrete(cap=24)
            if self.kind == 'd':
                s = str(abs(v)).rjust(self.width - (1 if v < 0 else 0), '0')
                return ('-' if v < 0 else '') + s
            return format(v, '0%d%s' % (self.width, self.kind) if self.width else self.kind)
        return repr(v.concrete())


def hexchar(nib, upper):
    if type(nib) is int:
        return '0123456789ABCDEF'[nib] if upper else '0123456789abcdef'[nib]
    r = ite(nib < 10, nib + 48, nib + (55 if upper else 87))
    if type(r) is SInt:
        r.tag = ('hex', nib, upper)
        return r
    return chr(r)


def fmt_int(v, spec):
    """Items for format(v, spec) of a symbolic int."""
    if spec in ('', 'd'):
        return [Num('d', v)]
    m = re.match(r'^(0?)(\d*)([dxX])$', spec)
    if m:
        zero, width, kind = m.groups()
        width = int(width) if width else 0
        if not width or zero:
            if kind == 'd':
                return [Num('d', v, width)]
            if v.lo >= 0:
                n = max(width, 1)
                if v.hi < 16 ** n:
                    return [hexchar((v >> (4 * k)) & 15, kind == 'X') for k in range(n - 1, -1, -1)] if v.ie is None else [Num(kind, v, width)]
                return [Num(kind, v, width)]
    m = re.match(r'^(?:(.)?([<>^]))?(0?)(\d*)([dxX]?)$', spec)
    if m and not (m.group(3) and not m.group(2)):
        fill, al, zero, width, kind = m.groups()
        return pad_items(fmt_int(v, kind), fill or zero or ' ', al or '>', int(width or 0))
    return list(format(v.concrete(), spec))


def pad_items(items, fill, al, width):
    """text items aligned in a field"""
    n = width
    for i in items:
        k = 1 if type(i) is not Num else i.length()
        n -= len(i.expand()) if k is None else k
    n = max(0, n)
    left = 0 if al == '<' else n if al == '>' else n // 2
    return [fill] * left + list(items) + [fill] * (n - left)


# ---------------------------------------------------------------- bytes
def mkbytes(items):
    for i in items:
        if type(i) is not int:
            return SBytes(items)
    return bytes(items)


def bitems(o):
    """Items of a bytes-like, or None."""
    t = type(o)
    if t is SBytes or t is SByteArray:
        return o.items
    if isinstance(o, (bytes, bytearray)):
        return list(o)
    if isinstance(o, memoryview):
        return list(o.tobytes())
    return None


def items_eq(a, b):
    if len(a) != len(b):
        return False
    conj = []
    i = 0
    n = len(a)
    for x, y in zip(a, b):
        if x is y:
            continue
        r = (x == y)
        if r is False:
            return False
        if r is not True:
            conj.append(r)
    return sand(conj)


class SBytes(object):
    __slots__ = ('items',)
    __class__ = bytes

    def __init__(self, items):
        self.items = list(items)

    def _mk(self, items):
        return mkbytes(items)

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        return iter(list(self.items))

    def __reversed__(self):
        return iter(list(reversed(self.items)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self.items[i])
        if type(i) is SInt:
            return select(self.items, i)
        return self.items[i]

    def __add__(self, o):
        b = bitems(o)
        if b is None:
            return NotImplemented
        return self._mk(self.items + list(b))

    def __radd__(self, o):
        b = bitems(o)
        if b is None:
            return NotImplemented
        return type(o)(b) + self if False else (mkbytes(list(b) + self.items))

    def __mul__(self, n):
        return self._mk(self.items * int(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        b = bitems(o)
        if b is None:
            return NotImplemented if type(o) not in (str, SStr) else False
        return items_eq(self.items, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return self.concrete() < conc(o)

    def __gt__(self, o):
        return self.concrete() > conc(o)

    def __contains__(self, o):
        if type(o) in (int, SInt):
            for i in self.items:
                if i == o:
                    return True
            return False
        return self.find(o) >= 0

    def concrete(self, cap=None):
        return bytes([i if type(i) is int else i.concrete(cap) for i in self.items])

    def __bytes__(self):
        return self.concrete()

    def __hash__(self):
        if E.cur is not None and id(self) in E.cur.symkeys:
            return 0x51ed
        return hash(self.concrete())

    def __repr__(self):
        if any(type(i) is not int for i in self.items):
            return 'b' + repr(''.join(E.cur.placeholder(Num('d', i)) if type(i) is not int else chr(i) for i in self.items))
        return repr(self.concrete())
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
            return mkstr([codechar(i) for i in self.items])
        for i in self.items:
            if not bool(i < 128):
                return self.concrete().decode(encoding, errors)
        return mkstr([codechar(i) for i in self.items])

    # methods that look at bytes as latin-1 text of ASCII meaning
    def lower(self): return self._mk([bytecase(i, False) for i in self.items])
    def upper(self): return self._mk([bytecase(i, True) for i in self.items])

    def swapcase(self):
        return self._mk([i ^ 32 if inside(i, 65, 90) or inside(i, 97, 122) else i for i in self.items])

    def _words(self):
        out, prev = [], False
        for i in self.items:
            out.append(bytecase(i, not prev))
            prev = inside(i, 65, 90) or inside(i, 97, 122)
        return out

    def title(self): return self._mk(self._words())

    def capitalize(self):
        return self._mk([bytecase(i, k == 0) for k, i in enumerate(self.items)])

    def isdigit(self): return bool(self.items) and all(inside(i, 48, 57) for i in self.items)
    def isalpha(self): return bool(self.items) and all(inside(i | 32, 97, 122) for i in self.items)
    def isalnum(self): return bool(self.items) and all(inside(i, 48, 57) or inside(i | 32, 97, 122) for i in self.items)
    def isspace(self): return bool(self.items) and all(inside(i, 9, 13) or bool(i == 32) for i in self.items)
    def isascii(self): return all(bool(i < 128) for i in self.items)

    def isupper(self):
        return not any(inside(i, 97, 122) for i in self.items) and any(inside(i, 65, 90) for i in self.items)

    def islower(self):
        return not any(inside(i, 65, 90) for i in self.items) and any(inside(i, 97, 122) for i in self.items)

    def replace(self, old, new, count=-1):
        o, n = list(bitems(old)), list(bitems(new))
        out, k, done = [], 0, 0
        if not o:
            return self.concrete().replace(conc(old), conc(new), count)
        while k < len(self.items):
            if (count < 0 or done < count) and k + len(o) <= len(self.items) and bool(items_eq(self.items[k:k + len(o)], o)):
                out += n
                k += len(o)
                done += 1
            else:
                out.append(self.items[k])
                k += 1
        return self._mk(out)

    def translate(self, table=None, delete=b''):
        out = []
        for i in self.items:
            if any(bool(i == d) for d in delete):
                continue
            out.append(i if table is None else table[i] if type(i) is int else select(list(table), i))
        return self._mk(out)

    def rfind(self, sub, start=0, end=None):
        s = [sub] if type(sub) in (int, SInt) else bitems(sub)
        n = len(self.items) if end is None else min(end, len(self.items))
        for k in range(n - len(s), start - 1, -1):
            if bool(items_eq(self.items[k:k + len(s)], s)):
                return k
        return -1

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def partition(self, sep):
        k = self.find(sep)
        if k < 0:
            return self, b'', b''
        return self._mk(self.items[:k]), sep, self._mk(self.items[k + len(sep):])

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0:
            return b'', b'', self
        return self._mk(self.items[:k]), sep, self._mk(self.items[k + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concrete().split(sep, maxsplit)
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            k = rest.find(sep)
            if k < 0:
                break
            out.append(rest[:k])
            rest = rest[k + len(sep):]
        return out + [rest]

    def zfill(self, n):
        pad = [48] * max(0, n - len(self.items))
        if pad and self.items and any(bool(self.items[0] == c) for c in b'+-'):
            return self._mk(self.items[:1] + pad + self.items[1:])
        return self._mk(pad + self.items)

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self.items) - len(p)] if len(p) and bool(self.endswith(p)) else self

    def hex(self, *a):
        out = []
        for i in self.items:
            out += [hexchar(i >> 4, False), hexchar(i & 15, False)] if type(i) is not int else list('%02x' % i)
        return mkstr(out)

    def find(self, sub, start=0, end=None):
        s = [sub] if type(sub) in (int, SInt) else bitems(sub)
        n = len(self.items) if end is None else min(end, len(self.items))
        for k in range(start, n - len(s) + 1):
            if bool(items_eq(self.items[k:k + len(s)], s)):
                return k
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, sub):
        s = [sub] if type(sub) in (int, SInt) else bitems(sub)
        k = n = 0
        while k + len(s) <= len(self.items):
            if bool(items_eq(self.items[k:k + len(s)], s)):
                n += 1
                k += len(s)
            else:
                k += 1
        return n

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        if a:
            return self[a[0]:a[1] if len(a) > 1 else None].startswith(p)
        b = bitems(p)
        return len(b) <= len(self.items) and items_eq(self.items[:len(b)], b)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(bool(self.endswith(x, *a)) for x in p)
        if a:
            return self[a[0]:a[1] if len(a) > 1 else None].endswith(p)
        b = bitems(p)
        return len(b) <= len(self.items) and items_eq(self.items[len(self.items) - len(b):], b)

    def _strip(self, chars, left, right):
        cs = list(b' \t\n\r\x0b\x0c') if chars is None else bitems(chars)
        it = list(self.items)
        while right and it and any(bool(it[-1] == c) for c in cs):
            it.pop()
        while left and it and any(bool(it[0] == c) for c in cs):
            it.pop(0)
        return self._mk(it)

    def rstrip(self, chars=None): return self._strip(chars, False, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def strip(self, chars=None): return self._strip(chars, True, True)

    def ljust(self, n, f=b' '):
        return self._mk(self.items + [f[0]] * max(0, n - len(self.items)))

    def rjust(self, n, f=b' '):
        return self._mk([f[0]] * max(0, n - len(self.items)) + self.items)

    def tobytes(self):
        return self

    def join(self, it):
        return bytes_join(self, it)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        E.cur.concretised['bytes.' + name] = E.cur.concretised.get('bytes.' + name, 0) + 1
        return getattr(self.concrete(cap=6), name)


class SByteArray(SBytes):
    __slots__ = ()
    __class__ = bytearray
    __hash__ = None

    def _mk(self, items):
        return SByteArray(items)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.items[i] = list(bitems(v) if bitems(v) is not None else v)
        else:
            if type(i) is SInt:
                i = i.concrete()
            self.items[i] = chkbyte(v)

    def __delitem__(self, i):
        del self.items[i]

    def __iadd__(self, o):
        b = bitems(o)
        self.items += list(b if b is not None else o)
        return self

    def append(self, v):
        self.items.append(chkbyte(v))

    def extend(self, o):
        self.__iadd__(o)

    def insert(self, i, v):
        self.items.insert(i, chkbyte(v))

    def pop(self, i=-1):
        return self.items.pop(i)

    def clear(self):
        del self.items[:]

    def reverse(self):
        self.items.reverse()

    def copy(self):
        return SByteArray(self.items)


def chkbyte(v):
    if type(v) is SInt:
        if v.lo < 0 and bool(v < 0) or v.hi > 255 and bool(v > 255):
            raise ValueError('bytes must be in range(0, 256)')
        if v.lo < 0 or v.hi > 255:
            return from_bits(v.getbits(8), False)
        return v
    v = v.__index__()
    if not 0 <= v <= 255:
        raise ValueError('bytes must be in range(0, 256)')
    return v


def bytes_join(sep, it):
    out = []
    si = bitems(sep)
    first = True
    for x in it:
        if not first:
            out += si
        first = False
        b = bitems(x)
        if b is None:
            raise TypeError('sequence item: expected a bytes-like object, %s found' % type(x).__name__)
        out += list(b)
    return mkbytes(out)


# ---------------------------------------------------------------- strings
def codechar(cp):
    return chr(cp) if type(cp) is int else cp


def mkstr(items):
    for i in items:
        if type(i) is not str:
            return SStr(items)
    return ''.join(items)


def lift(s):
    """Replace placeholder characters of a native str by the symbolic items they stand for."""
    if type(s) is not str or s.isascii() or E.cur is None:
        return s
    ph = E.cur.placeholders
    if not any(c >= '\U000f0000' for c in s):
        return s
    out = []
    for c in s:
        if c >= '\U000f0000' and ord(c) - 0xF0000 < len(ph):
            out.append(ph[ord(c) - 0xF0000])
        else:
            out.append(c)
    return mkstr(out)


def sitems(o):
    t = type(o)
    if t is SStr:
        return o.items
    if isinstance(o, str):
        o2 = lift(o)
        return o2.items if type(o2) is SStr else list(o)
    return None


def cp(i):
    return ord(i) if type(i) is str else i


class SStr(object):
    """items: 1-char str | SInt code point | Num."""
    __slots__ = ('items',)
    __class__ = str

    def __init__(self, items):
        self.items = list(items)

    def flat(self):
        """Expand numeric texts into characters."""
        if any(type(i) is Num for i in self.items):
            out = []
            for i in self.items:
                if type(i) is Num:
                    out += i.expand()
                else:
                    out.append(i)
            self.items = out
        return self.items

    def __len__(self):
        n = 0
        for i in self.items:
            if type(i) is Num:
                k = i.length()
                if k is None:
                    return len(self.flat())
                n += k
            else:
                n += 1
        return n

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        return iter([mkstr([i]) for i in self.flat()])

    def __getitem__(self, i):
        if type(i) is SInt:
            i = i.concrete()
        if isinstance(i, slice):
            # keep numeric texts of fixed length whole when the slice allows
            lens = [1 if type(x) is not Num else x.length() for x in self.items]
            if None not in lens and i.step in (None, 1):
                n = sum(lens)
                a, b, _ = i.indices(n)
                out = []
                p = 0
                ok = True
                for x, l in zip(self.items, lens):
                    if p >= a and p + l <= b:
                        out.append(x)
                    elif p + l <= a or p >= b:
                        pass
                    else:
                        ok = False
                        break
                    p += l
                if ok:
                    return mkstr(out)
            if None in lens and i.step in (None, 1) and (i.start is None or i.start >= 0):
                # prefix/suffix slices around a variable-length number
                a = i.start or 0
                b = i.stop
                if a <= len(self.items) and all(l == 1 for l in lens[:a]):
                    if b is None:
                        return mkstr(self.items[a:])
                    if b < 0 and -b <= len(self.items) and all(l == 1 for l in lens[b:]) and len(self.items) + b >= a:
                        return mkstr(self.items[a:b])
                    if b >= 0 and b <= len(self.items) and all(l == 1 for l in lens[:b]):
                        return mkstr(self.items[a:b])
            if None in lens and i.step in (None, 1) and i.start is not None and i.start < 0 and i.stop is None:
                k = -i.start
                if k <= len(self.items) and all(l == 1 for l in lens[-k:]):
                    return mkstr(self.items[-k:])
            return mkstr(self.flat()[i])
        if i >= 0 and i < len(self.items) and all(type(x) is not Num for x in self.items[:i + 1]):
            return mkstr([self.items[i]])
        if i < 0 and -i <= len(self.items) and all(type(x) is not Num for x in self.items[i:]):
            return mkstr([self.items[i]])
        return mkstr([self.flat()[i]])

    def __add__(self, o):
        b = sitems(o)
        if b is None:
            return NotImplemented
        return mkstr(self.items + list(b))

    def __radd__(self, o):
        b = sitems(o)
        if b is None:
            return NotImplemented
        return mkstr(list(b) + self.items)

    def __mul__(self, n):
        return mkstr(self.items * int(n))
    __rmul__ = __mul__

    def __mod__(self, o):
        from . import models
        return models.mod(self, o)

    def __eq__(self, o):
        b = sitems(o)
        if b is None:
            return False if o is None or isinstance(o, (int, float, bytes, list, tuple, dict)) else NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _lex(self, o):
        a, b = self.concrete(cap=24), conc(o)
        return a, b

    def __lt__(self, o):
        a, b = self._lex(o)
        return a < b

    def __gt__(self, o):
        a, b = self._lex(o)
        return a > b

    def __le__(self, o):
        a, b = self._lex(o)
        return a <= b

    def __ge__(self, o):
        a, b = self._lex(o)
        return a >= b

    def __contains__(self, o):
        return self.find(o) >= 0

    def concrete(self, cap=None):
        out = []
        for i in self.items:
            if type(i) is str:
                out.append(i)
            elif type(i) is Num:
                out.append(i.concrete())
            else:
                out.append(chr(i.concrete(cap)))
        return ''.join(out)

    def __hash__(self):
        if E.cur is not None and id(self) in E.cur.symkeys:
            return 0x51ed
        return hash(self.concrete())

    def __str__(self):
        return ''.join(i if type(i) is str else E.cur.placeholder(i) for i in self.items)

    def __repr__(self):
        return "'" + str(self) + "'"

    def __format__(self, spec):
        if spec in ('', 's'):
            return str(self)
        m = re.match(r'^(?:(.)?([<>^]))?(0?)(\d*)(?:\.(\d+))?s?$', spec)
        if m and not (m.group(3) and not m.group(2)):
            fill, al, zero, width, prec = m.groups()
            t = self if prec is None else self[:int(prec)]
            items = pad_items(t.items if type(t) is SStr else list(t), fill or zero or ' ', al or '<', int(width or 0))
            return ''.join(i if type(i) is str else E.cur.placeholder(i) for i in items)
        return format(self.concrete(cap=24), spec)

    def encode(self, encoding='utf-8', errors='strict'):
        return to_bytes(self, encoding)

    def _strip(self, chars, left, right):
        cs = ' \t\n\r\x0b\x0c' if chars is None else conc(chars)
        it = list(self.items)

        def hit(x):
            if type(x) is Num:
                if all(c not in '0123456789-+.einfa' for c in cs):
                    return False
                return None
            return any(bool(cp(x) == ord(c)) for c in cs)
        while right and it:
            h = hit(it[-1])
            if h is None:
                it = SStr(it).flat()
                h = hit(it[-1])
            if not h:
                break
            it.pop()
        while left and it:
            h = hit(it[0])
            if h is None:
                it = SStr(it).flat()
                h = hit(it[0])
            if not h:
                break
            it.pop(0)
        return mkstr(it)

    def rstrip(self, chars=None): return self._strip(chars, False, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def strip(self, chars=None): return self._strip(chars, True, True)

    def find(self, sub, start=0, end=None):
        s = sitems(sub)
        if start == 0 and end is None and self._absent(s):
            return -1
        f = self.flat()
        n = len(f) if end is None else min(end, len(f))
        for k in range(start, n - len(s) + 1):
            if bool(chars_eq(f[k:k + len(s)], s)):
                return k
        return -1

    def _absent(self, s):
        """no character of some part of s can occur (numbers need not be expanded to see it)"""
        if not any(type(i) is Num for i in self.items):
            return False
        for c in s:
            if type(c) is str and c not in '0123456789-+.einfaxABCDEFbcd':
                if not any(type(i) is not Num and bool(cp(i) == ord(c)) for i in self.items):
                    return True
            elif type(c) is str and all(type(i) is str or (type(i) is Num and i.kind == 'd') for i in self.items):
                if c.isdigit() or c == '-' or any(i == c for i in self.items if type(i) is str):
                    continue
                return True
        return False

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        k = len(p)
        return len(self) >= k and str_eq(self[:k], p)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(bool(self.endswith(x)) for x in p)
        k = len(p)
        if k == 0:
            return True
        its = self.items
        if k <= len(its) and all(type(x) is not Num for x in its[-k:]):
            return str_eq(mkstr(its[-k:]), p)
        return len(self) >= k and str_eq(self[-k:], p)

    def rfind(self, sub, start=0, end=None):
        s = sitems(sub)
        f = self.flat()
        n = len(f) if end is None else min(end, len(f))
        for k in range(n - len(s), start - 1, -1):
            if bool(chars_eq(f[k:k + len(s)], s)):
                return k
        return -1

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def _cut(self, sub):
        """position of the first sub among items, without expanding numbers where possible"""
        if type(sub) is str and len(sub) == 1 and sub not in '0123456789-+.einfaxABCDEF' and sub not in 'bcd':
            for k, i in enumerate(self.items):
                if type(i) is not Num and bool(cp(i) == ord(sub)):
                    return k
            return -1
        return self.find(sub)

    def partition(self, sep):
        k = self._cut(sep)
        if k < 0:
            return self, '', ''
        return mkstr(self.items[:k]), sep, mkstr(self.items[k + len(sep):])

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0:
            return '', '', self
        return mkstr(self.items[:k]), sep, mkstr(self.items[k + len(sep):])

    def count(self, sub, *a):
        s = sitems(sub)
        f = self.flat()
        k = n = 0
        while s and k + len(s) <= len(f):
            if bool(chars_eq(f[k:k + len(s)], s)):
                n += 1
                k += len(s)
            else:
                k += 1
        return n if s else len(f) + 1

    def ljust(self, n, fill=' '):
        return mkstr(self.items + [fill] * max(0, n - len(self)))

    def rjust(self, n, fill=' '):
        return mkstr([fill] * max(0, n - len(self)) + self.items)

    def zfill(self, n):
        pad = ['0'] * max(0, n - len(self))
        f = self.flat()
        if pad and f and any(bool(cp(f[0]) == ord(c)) for c in '+-'):
            return mkstr(f[:1] + pad + f[1:])
        return mkstr(pad + f)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    def isspace(self):
        return bool(self.items) and not self.strip()

    def casefold(self):
        return self.lower()

    def isascii(self):
        return all(type(i) is Num or bool(cp(i) < 128) for i in self.items)

    def replace(self, old, new, count=-1):
        o = sitems(old)
        nw = list(sitems(new))
        out = []
        if len(o) == 1 and type(o[0]) is str and o[0] not in '0123456789-':
            for i in self.items:
                if type(i) is not Num and bool(cp(i) == ord(o[0])):
                    out += nw
                else:
                    out.append(i)
            return mkstr(out)
        f = self.flat()
        k = 0
        while k < len(f):
            if k + len(o) <= len(f) and bool(chars_eq(f[k:k + len(o)], o)):
                out += nw
                k += len(o)
            else:
                out.append(f[k])
                k += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        f = self.items
        out = []
        curr = []
        ws = sep is None
        seps = ' \t\n\r\x0b\x0c' if ws else None
        if not ws and len(sep) != 1:
            return [mkstr(list(x)) for x in self.concrete(cap=24).split(sep, maxsplit)]
        for i in f:
            hit = False
            if type(i) is not Num:
                hit = any(bool(cp(i) == ord(c)) for c in (seps if ws else sep))
            if hit and (maxsplit < 0 or len(out) < maxsplit):
                if not ws or curr:
                    out.append(mkstr(curr))
                curr = []
            else:
                curr.append(i)
        if not ws or curr:
            out.append(mkstr(curr))
        return out

    def upper(self):
        return mkstr([casech(i, True) for i in self.flat()])

    def lower(self):
        return mkstr([casech(i, False) for i in self.flat()])

    def title(self): return self._words()

    def _words(self):
        out, prev = [], False
        for i in self.flat():
            out.append(casech(i, not prev))
            prev = self._alpha(i)
        return mkstr(out)

    def capitalize(self):
        return mkstr([casech(i, k == 0) for k, i in enumerate(self.flat())])

    @staticmethod
    def _alpha(i):
        if type(i) is str:
            return i.isalpha()
        if i.hi >= 128 and bool(i >= 128):
            return chr(i.concrete()).isalpha()
        return inside(i | 32, 97, 122)

    def isalpha(self): return bool(self.items) and all(self._alpha(i) for i in self.flat())

    def isalnum(self):
        f = self.flat()
        return bool(f) and all(i.isalnum() if type(i) is str else inside(i, 48, 57) or self._alpha(i) for i in f)

    def isdecimal(self): return self.isdigit()
    def isnumeric(self): return self.isdigit()

    def isdigit(self):
        if not self.items:
            return False
        for i in self.items:
            if type(i) is Num:
                if i.kind != 'd' or (type(i.v) is SInt and i.v.lo < 0 and bool(i.v < 0)):
                    return False
            elif not bool(sand([cp(i) >= 48, cp(i) <= 57])):
                return False
        return True

    def join(self, it):
        return str_join(self, it)

    def format(self, *a, **k):
        from . import models
        return models.str_format(str(self), *a, **k)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        E.cur.concretised['str.' + name] = E.cur.concretised.get('str.' + name, 0) + 1
        return getattr(self.concrete(cap=6), name)


def casech(i, up):
    if type(i) is str:
        return i.upper() if up else i.lower()
    if i.tag and i.tag[0] == 'hex':
        return hexchar(i.tag[1], up)
    if up:
        return codechar(ite(sand([i >= 97, i <= 122]), i - 32, i))
    return codechar(ite(sand([i >= 65, i <= 90]), i + 32, i))


def str_join(sep, it):
    si = sitems(sep)
    out = []
    first = True
    for x in it:
        if not first:
            out += si
        first = False
        b = sitems(x)
        if b is None:
            raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
        out += list(b)
    return mkstr(out)


def chars_eq(a, b):
    if len(a) != len(b):
        return False
    conj = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is str and type(y) is str:
            if x != y:
                return False
            continue
        # hex characters of the same case compare by nibble
        if type(x) is SInt and type(y) is SInt and x.tag and y.tag and x.tag[0] == 'hex' and y.tag[0] == 'hex' and x.tag[2] == y.tag[2]:
            r = (x.tag[1] == y.tag[1])
        else:
            r = (cp(x) == cp(y))
        if r is False:
            return False
        if r is not True:
            conj.append(r)
    return sand(conj)


def num_eq(n, s):
    """Num n equals concrete text s?"""
    v = n.v
    if n.kind == 'd' and n.width <= 1 and type(v) is SInt:
        if re.match(r'^(0|-?[1-9][0-9]*)$', s):
            return v == int(s)
        return False
    if n.kind == 'd' and type(v) is SInt:
        if re.match(r'^-?[0-9]+$', s) and len(s) >= n.width and (len(s) == n.width or re.match(r'^-?[1-9]', s)):
            return v == int(s)
        return False
    if n.kind == 'r':
        if s == 'nan':
            return v.isnan()
        try:
            f = float(s)
        except ValueError:
            return False
        if repr(f) != s:
            return False
        return v.same(f)
    return None


def str_eq(a, b):
    x = list(sitems(a))
    y = list(sitems(b))
    # strip common concrete prefix / suffix
    while x and y and type(x[0]) is str and type(y[0]) is str:
        if x[0] != y[0]:
            return False
        x.pop(0)
        y.pop(0)
    while x and y and type(x[-1]) is str and type(y[-1]) is str:
        if x[-1] != y[-1]:
            return False
        x.pop()
        y.pop()
    if not x and not y:
        return True
    if (not x and any(type(i) is not Num for i in y)) or (not y and any(type(i) is not Num for i in x)):
        return False
    if not x or not y:
        return False        # numeric text is never empty
    # same structure
    if len(x) == len(y) and all((type(p) is Num) == (type(q) is Num) for p, q in zip(x, y)):
        nums = [(p, q) for p, q in zip(x, y) if type(p) is Num]
        same = all(p.kind == q.kind and p.width == q.width for p, q in nums)
        # a single number between equal-length contexts: text equality is value equality
        if same and len(nums) <= 1:
            conj = []
            for p, q in zip(x, y):
                if type(p) is Num:
                    conj.append(num_same(p, q))
                else:
                    conj.append(chars_eq([p], [q]))
            return sand(conj)
    for p, q in ((x, y), (y, x)):
        if len(p) == 1 and type(p[0]) is Num and all(type(i) is str for i in q):
            r = num_eq(p[0], ''.join(q))
            if r is not None:
                return r
    if any(type(i) is Num and i.kind == 'r' for i in x + y):
        return conc(mkstr(x)) == conc(mkstr(y))
    return chars_eq(SStr(x).flat(), SStr(y).flat())


def num_same(p, q):
    if p.kind == 'r':
        return p.v.same(q.v)
    return p.v == q.v


def inside(i, lo, hi):
    """decided on this path: lo <= i <= hi"""
    return bool(sand([i >= lo, i <= hi]))


def bytecase(i, up):
    if type(i) is int:
        return bytes([i]).upper()[0] if up else bytes([i]).lower()[0]
    lo, hi = (97, 122) if up else (65, 90)
    if i.hi < lo or i.lo > hi:
        return i
    return ite(sand([i >= lo, i <= hi]), i ^ 32, i)


def to_bytes(s, encoding):
    enc = conc(encoding).lower().replace('_', '-')
    latin = enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1')
    lim = 256 if latin else 128
    out = []
    for i in s.flat():
        c = cp(i)
        if type(c) is int:
            out += list(chr(c).encode(encoding))
        else:
            if c.hi >= lim and not bool(c < lim):
                if latin:
                    raise UnicodeEncodeError('latin-1', '?', 0, 1, 'ordinal not in range(256)')
                out += list(chr(c.concrete(cap=6)).encode(encoding))
                continue
            b = c if c.hi < 256 else from_bits(c.getbits(8), False)
            out.append(b)
    return mkbytes(out)


# ---------------------------------------------------------------- floats
class SFloat(object):
    """A float known by its IEEE-754 single bits (as decoded from registers)."""
    __slots__ = ('b',)
    __class__ = float

    def __init__(self, b):
        self.b = b      # SInt 0..2^32-1

    def isnan(self):
        b = self.b
        return sand([((b >> 23) & 255) == 255, (b & 0x7fffff) != 0])

    def isinf(self):
        return (self.b & 0x7fffffff) == 0x7f800000

    def iszero(self):
        return (self.b & 0x7fffffff) == 0

    def same(self, o):
        """identical text form (nan equal nan)"""
        if type(o) is SFloat:
            return sor([self.b == o.b, sand([self.isnan(), o.isnan()])])
        if type(o) is float:
            import struct
            if o != o:
                return self.isnan()
            try:
                p = struct.pack('>f', o)
            except OverflowError:
                return False
            if struct.unpack('>f', p)[0] != o:
                return False
            return self.b == int.from_bytes(p, 'big')
        return False

    def __eq__(self, o):
        if type(o) is SFloat:
            return sand([snot(self.isnan()), snot(o.isnan()),
                         sor([self.b == o.b, sand([self.iszero(), o.iszero()])])])
        if type(o) in (int, bool, float):
            try:
                o = float(o)
            except OverflowError:
                return False
            if o == 0:
                return self.iszero()
            return sand([snot(self.isnan()), self.same(o)])
        if o is None or isinstance(o, (str, bytes)):
            return False
        return self.concrete() == conc(o)

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __bool__(self):
        return bool(snot(self.iszero()))

    def concrete(self, cap=None):
        import struct
        v = self.b if type(self.b) is int else self.b.concrete(cap or 24)
        return struct.unpack('>f', v.to_bytes(4, 'big'))[0]

    def __float__(self):
        return self.concrete()

    def __hash__(self):
        if E.cur is not None and id(self) in E.cur.symkeys:
            return 0x51ed
        return hash(self.concrete())

    def __repr__(self):
        return E.cur.placeholder(Num('r', self))
    __str__ = __repr__

    def __format__(self, spec):
        if spec == '':
            return repr(self)
        return format(self.concrete(), spec)

    def _c(self, name):
        """concrete value for arithmetic: the special classes exactly, the others enumerated up to a cap"""
        if bool(self.isnan()):
            return float('nan')
        if bool(self.isinf()):
            return float('-inf') if bool(self.b >= 0x80000000) else float('inf')
        if bool(self.iszero()):
            return -0.0 if bool(self.b >= 0x80000000) else 0.0
        if bool((self.b & 0x7f800000) == 0) or bool((self.b & 0x7f800000) == 0x7f000000):
            pass    # denormal or largest: enumerated apart from the rest
        E.cur.concretised['float.' + name] = E.cur.concretised.get('float.' + name, 0) + 1
        return self.concrete(cap=6)

    def _key(self):
        """an integer in the order of the values (not nan); both zeros are 0"""
        m = self.b & 0x7fffffff
        return -m if bool(self.b >= 0x80000000) else m

    def _order(self, o):
        """-> (a, b) integers in the order of self and o, None when one is nan or o is no number"""
        if bool(self.isnan()):
            return None
        if type(o) is SFloat:
            return None if bool(o.isnan()) else (self._key(), o._key())
        if type(o) in (int, bool, float):
            import struct
            try:
                c = float(o)
            except OverflowError:
                c = float('inf') if o > 0 else float('-inf')
            if c != c:
                return None
            try:
                p = struct.pack('>f', c)
            except OverflowError:
                # beyond every finite single, short of infinity
                k = 2 * 0x7f7fffff + 1
                return 2 * self._key(), k if c > 0 else -k
            k = int.from_bytes(p, 'big')
            k = k if k < 0x80000000 else -(k & 0x7fffffff)
            f = struct.unpack('>f', p)[0]
            # between two singles: doubled keys leave room for the middle
            return 2 * self._key(), 2 * k + (1 if c > f else -1 if c < f else 0)
        return self._c('<'), conc(o)

    def _cmp(self, o, f):
        k = self._order(o)
        return False if k is None else f(*k)

    def __add__(self, o): return self._c('+') + conc(o)
    def __radd__(self, o): return conc(o) + self._c('+')
    def __sub__(self, o): return self._c('-') - conc(o)
    def __rsub__(self, o): return conc(o) - self._c('-')

    def __mul__(self, o):
        if type(o) in (int, float) and o == 1:
            return self
        return self._c('*') * conc(o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) in (int, float) and o == 1:
            return self
        return self._c('/') / conc(o)

    def __rtruediv__(self, o): return conc(o) / self._c('/')
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __neg__(self): return SFloat(self.b ^ 0x80000000)
    def __abs__(self): return SFloat(self.b & 0x7fffffff)
    def __round__(self, n=None): return round(self._c('round'), n)
    def __int__(self): return int(self._c('int'))


U = Fraction(1, 2 ** 53)


class SReal(object):
    """A double with the standard error model: every inexact operation adds an error variable
    bounded by 2^-53 relative.  Sound for operands whose magnitudes stay inside the normal range
    (they do: |values| < 2^1000).  Counterexamples are confirmed by replay."""
    __slots__ = ('_r', 'm', 'g', 'i')
    __class__ = float

    def __init__(self, r, m, g=None, i=None):
        self._r = r         # z3 Real (None: take it from i)
        self.m = m          # bound on |r| (Fraction)
        self.g = g          # the value is a multiple of g (a power of two), or None
        self.i = i          # the value as an SInt when it is exactly an integer, or None

    @property
    def r(self):
        if self._r is None:
            self._r = z3.ToReal(self.i.int_expr())
        elif callable(self._r):
            self._r = self._r()
        return self._r

    def _fin(self, xf, m, g, i):
        """result of exact value x: exact when it fits the grid, else rounded"""
        if g is not None and m <= (2 ** 53) * g:
            if i is not None:
                if type(i) is int:
                    return float(i)
                return SReal(xf, m, g, i)
            return SReal(xf(), m, g)
        return self._round(xf(), m)

    def isnan(self):
        return False

    def same(self, o):
        return self == o

    def _round(self, x, m):
        c = E.cur
        c.path_approx = True
        err = z3.Real(c.fresh_name('err'))
        k = z3.Q(1, 2 ** 53)
        c.add(z3.And(err <= z3.If(x >= 0, x, -x) * k, -err <= z3.If(x >= 0, x, -x) * k), definition=True)
        return SReal(x + err, m * (1 + 2 * U))

    def _arith(self, o, op, rev=False):
        if type(o) is SInt:
            o = to_real(o)
        if type(o) is SBool:
            o = to_real(o._i())
        if type(o) in (int, bool):
            o = float(o)
        if type(o) is float:
            if o != o or abs(o) == float('inf'):
                return NotImplemented
            f = Fraction(o)
            fi = int(f) if f.denominator == 1 else None
            fg = Fraction(1, f.denominator)     # floats have power-of-two denominators
            if op == '*':
                if f == 1:
                    return self
                x = lambda: self.r * z3.Q(f.numerator, f.denominator)
                m = self.m * abs(f)
                i = self.i * fi if self.i is not None and fi is not None else None
                g = self.g * fg if self.g is not None else None
                if f != 0 and is_pow2(f):
                    return SReal(x, m, g, i) if type(i) is not int else float(i)
                return self._fin(x, m, g, i)
            if op == '/' and not rev:
                if f == 0:
                    raise ZeroDivisionError('float division by zero')
                if f == 1:
                    return self
                x = self.r * z3.Q(f.denominator, f.numerator)
                m = self.m / abs(f)
                if is_pow2(f):
                    return SReal(x, m, self.g / abs(f) if self.g is not None else None)
                return self._round(x, m)
            if op in '+-':
                q = z3.Q(f.numerator, f.denominator)
                x = lambda: self.r + q if op == '+' else (q - self.r if rev else self.r - q)
                i = None
                if self.i is not None and fi is not None:
                    i = self.i + fi if op == '+' else (fi - self.i if rev else self.i - fi)
                return self._fin(x, self.m + abs(f), min(self.g, fg) if self.g is not None else None, i)
            return NotImplemented
        if type(o) is SReal and op in '+-':
            a, b = (o, self) if rev else (self, o)
            i = None
            if a.i is not None and b.i is not None:
                i = a.i + b.i if op == '+' else a.i - b.i
            g = min(a.g, b.g) if a.g is not None and b.g is not None else None
            return self._fin(lambda: a.r + b.r if op == '+' else a.r - b.r, a.m + b.m, g, i)
        return NotImplemented

    def __add__(self, o): return self._arith(o, '+')
    def __radd__(self, o): return self._arith(o, '+', True)
    def __sub__(self, o): return self._arith(o, '-')
    def __rsub__(self, o): return self._arith(o, '-', True)
    def __mul__(self, o): return self._arith(o, '*')
    def __rmul__(self, o): return self._arith(o, '*', True)
    def __truediv__(self, o): return self._arith(o, '/')
    def __rtruediv__(self, o): return self._arith(o, '/', True)
    def __neg__(self): return SReal(-self.r, self.m, self.g)
    def __pos__(self): return self
    def __abs__(self): return SReal(z3.If(self.r >= 0, self.r, -self.r), self.m)

    def _cmp(self, o, op):
        if self.i is not None:
            if type(o) in (int, bool, SInt) or type(o) is float and o == o and abs(o) != float('inf') and o == int(o):
                return self.i._cmp(o, op)
            if type(o) is SReal and o.i is not None:
                return self.i._cmp(o.i, op)
        if type(o) in (int, bool, float):
            if o != o:
                return False
            if o in (float('inf'), float('-inf')):
                return (o > 0) if op in ('<', '<=') else False
            f = Fraction(o)
            y = z3.Q(f.numerator, f.denominator)
        elif isinstance(o, Fraction) and type(o) is Fraction:
            y = z3.Q(o.numerator, o.denominator)
        elif type(o) is SReal:
            y = o.r
        elif type(o) is SInt:
            y = z3.ToReal(o.int_expr())
        else:
            return False if op == '==' else NotImplemented
        x = self.r
        return sb(x == y if op == '==' else x < y if op == '<' else x <= y)

    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return snot(self._cmp(o, '=='))
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return snot(self._cmp(o, '<='))
    def __ge__(self, o): return snot(self._cmp(o, '<'))
    def __bool__(self): return bool(self != 0)

    def _bound(self):
        return int(self.m) + 2

    def __round__(self, n=None):
        if self.i is not None:
            return self.i if n is None else self
        if n is not None:
            # decimal rounding to n places: error bounded by half a unit (plus representation)
            n = n if type(n) is int else n.concrete()
            c = E.cur
            c.path_approx = True
            q = z3.Int(c.fresh_name('rn'))
            s = Fraction(10) ** n
            sc = z3.Q(s.numerator, s.denominator)
            x = self.r * sc
            h = z3.Q(1, 2)
            c.add(z3.And(z3.ToReal(q) <= x + h, z3.ToReal(q) >= x - h), definition=True)
            inv = 1 / s
            return self._round(z3.ToReal(q) * z3.Q(inv.numerator, inv.denominator), self.m + abs(inv))
        c = E.cur
        q = z3.Int(c.fresh_name('rnd'))
        h = z3.Q(1, 2)
        c.add(z3.And(z3.ToReal(q) <= self.r + h, z3.ToReal(q) >= self.r - h), definition=True)
        b = self._bound()
        return SInt.from_ie(q, -b, b)

    def trunc(self):
        if self.i is not None:
            return self.i
        b = self._bound()
        e = z3.If(self.r >= 0, z3.ToInt(self.r), -z3.ToInt(-self.r))
        return SInt.from_ie(e, -b, b)

    def floor(self):
        if self.i is not None:
            return self.i
        b = self._bound()
        return SInt.from_ie(z3.ToInt(self.r), -b, b)

    def is_integer(self):
        if self.i is not None:
            return True
        return sb(z3.IsInt(self.r))

    def concrete(self, cap=None):
        c = E.cur
        m = c.need_model()
        v = m.eval(self.r, model_completion=True)
        c.note_incomplete('float concretised')
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))

    def __float__(self): return self.concrete()
    def __int__(self): return int(self.concrete())
    def __hash__(self): return hash(self.concrete())

    def __repr__(self):
        return E.cur.placeholder(Num('r', self))
    __str__ = __repr__

    def __format__(self, spec):
        if spec == '':
            return repr(self)
        return format(self.concrete(), spec)


def is_pow2(f):
    f = abs(f)
    n, d = f.numerator, f.denominator
    return not (n & (n - 1)) and not (d & (d - 1))


def to_real(v):
    if type(v) is SReal:
        return v
    if type(v) is SBool:
        v = v._i()
    m = Fraction(max(abs(v.lo), abs(v.hi)))
    if m > 2 ** 53:
        x = z3.ToReal(v.int_expr())
        r = SReal(x, m)._round(x, m)
        # exact up to 2^53
        E.cur.add(z3.Implies(z3.And(x <= 2 ** 53, x >= -2 ** 53), r.r == x), definition=True)
        return r
    return SReal(None, m, Fraction(1), v)


# ---------------------------------------------------------------- helpers
SYM = (SInt, SBool, SBytes, SByteArray, SStr, SFloat, SReal)
SYMSET = frozenset(SYM)


def is_sym(x):
    return type(x) in SYMSET


def has_sym(x, depth=2):
    t = type(x)
    if t in SYMSET:
        return True
    if depth:
        if t is list or t is tuple or t is set:
            for i in x:
                if has_sym(i, depth - 1):
                    return True
        elif t is dict:
            for k, v in x.items():
                if has_sym(v, depth - 1) or has_sym(k, 0):
                    return True
        elif t is str and not x.isascii():
            return type(lift(x)) is SStr
    return False


def conc(x, cap=None):
    """Concretise by case split."""
    t = type(x)
    if t is SBool:
        return bool(x)
    if t is SByteArray:
        return bytearray(x.concrete(cap))
    if t in SYMSET:
        return x.concrete(cap)
    if t is list:
        return [conc(i, cap) for i in x]
    if t is tuple:
        return tuple(conc(i, cap) for i in x)
    if t is dict:
        return dict((conc(k, cap), conc(v, cap)) for k, v in x.items())
    if t is str:
        y = lift(x)
        if type(y) is SStr:
            return y.concrete(cap)
    return x


def select(items, i):
    """items[i] with symbolic i (bounds fork, then ite chain or affine table)."""
    n = len(items)
    if bool(i < 0):
        if bool(i < -n):
            raise IndexError('index out of range')
        i = i + n
        if type(i) is int:
            return items[i]
        if i.lo < 0:
            i = SInt.from_bv(i.e, True, max(0, i.lo), max(0, i.hi)) if i.ie is None else SInt.from_ie(i.ie, 0, max(0, i.hi))
            if type(i) is int:
                return items[i]
    if i.hi >= n and bool(i >= n):
        raise IndexError('index out of range')
    if all(type(x) is int for x in items) and i.ie is None and min(items) >= 0:
        k = max(1, (n - 1).bit_length())
        if n == 1 << k and i.hi < n and i.lo >= 0:
            t0 = items[0]
            cols = [items[1 << j] ^ t0 for j in range(k)]
            lin = True
            for a in range(n):
                v = t0
                for j in range(k):
                    if (a >> j) & 1:
                        v ^= cols[j]
                if v != items[a]:
                    lin = False
                    break
            if lin:
                ib = i.getbits(k)
                w = max(1, max(items).bit_length())
                out = []
                for b in range(w):
                    m = (t0 >> b) & 1
                    for j in range(k):
                        if (cols[j] >> b) & 1:
                            m ^= ib[j]
                    out.append(m)
                return from_bits(out, False)
    if all(type(x) in (int, SInt) for x in items):
        lo = max(0, i.lo)
        hi = min(n - 1, i.hi)
        r = items[hi]
        for k in range(hi - 1, lo - 1, -1):
            r = ite(i == k, items[k], r)
        return r
    return items[i.concrete()]
