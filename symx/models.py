"""Models of builtins and library functions for symbolic arguments, and the hooks the
instrumented code calls (call, getitem, contains, mod, lift, ...)."""
import copy
import base64
import binascii
import builtins
import math
import operator
import os
import re
import struct
import sys
import time
import types
import xml.etree.ElementTree as ET
import zipfile
import io
import codecs
import collections
import functools

from . import engine as E
from . import stubs
from .vals import *
from . import vals as V

BM = types.BuiltinMethodType          # == BuiltinFunctionType
MW = types.MethodWrapperType
FN = types.FunctionType
MT = types.MethodType
MD = types.MethodDescriptorType

OWN_MARK = '_sx'


def pytype(x):
    t = type(x)
    if t is SInt:
        return int
    if t is SBool:
        return bool
    if t is SBytes:
        return bytes
    if t is SByteArray:
        return bytearray
    if t is SStr:
        return str
    if t is SFloat or t is SReal:
        return float
    return t


# ------------------------------------------------------------------ builtin models
def m_type(*a, **k):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a, **k)


def m_isinstance(x, t):
    if is_sym(x):
        pt = pytype(x)
        if isinstance(t, tuple):
            return any(m_isinstance(x, i) for i in t)
        try:
            return issubclass(pt, t)
        except TypeError:
            return isinstance(x, t)
    return isinstance(x, t)


def m_len(x):
    return len(x)


def m_ord(x):
    if type(x) is SStr:
        f = x.flat() if len(x.items) != 1 or type(x.items[0]) is Num else x.items
        if len(f) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(f))
        return cp(f[0])
    if type(x) in (SBytes, SByteArray):
        if len(x.items) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x.items))
        return x.items[0]
    if isinstance(x, str):
        y = lift(x)
        if type(y) is SStr:
            return m_ord(y)
    if type(x) is SInt:
        raise TypeError('ord() expected string of length 1, but int found')
    return ord(x)


def m_chr(x):
    if type(x) is SBool:
        x = x._i()
    if type(x) is SInt:
        if x.lo < 0 and bool(x < 0) or x.hi > 0x10ffff and bool(x > 0x10ffff):
            raise ValueError('chr() arg not in range(0x110000)')
        return SStr([x])
    return chr(x)


def digit_val(ch, base):
    """Value of a digit character item; raises ValueError when it is not one (forks)."""
    if type(ch) is str:
        return int(ch, base)
    if ch.tag and ch.tag[0] == 'hex' and base == 16:
        return ch.tag[1]
    if bool(sand([ch >= 48, ch <= 47 + min(base, 10)])):
        r = ch - 48
        return narrow(r, 0, min(base, 10) - 1)
    if base > 10:
        if bool(sand([ch >= 97, ch <= 96 + base - 10])):
            return narrow(ch - 87, 10, base - 1)
        if bool(sand([ch >= 65, ch <= 64 + base - 10])):
            return narrow(ch - 55, 10, base - 1)
    raise ValueError('invalid literal for int()')


def narrow(v, lo, hi):
    """Use bounds the path condition implies."""
    if type(v) is int:
        return v
    lo = max(lo, v.lo)
    hi = min(hi, v.hi)
    if lo == hi:
        return lo
    if v.ie is not None:
        return SInt.from_ie(v.ie, lo, hi)
    w, sg = rng(lo, hi)
    return SInt.from_bv(v.bv(w), sg, lo, hi)


def int_of_str(s, base=10):
    s = s.strip()
    if type(s) is not SStr:
        return int(s, base)
    it = s.items
    if len(it) == 1 and type(it[0]) is Num:
        n = it[0]
        if n.kind == 'd' and base in (10, 0):
            if base == 0 and n.width > 1 and type(n.v) is SInt:
                if bool(sand([n.v < 10 ** (n.width - 1), n.v > 0])):
                    raise ValueError('invalid literal for int() with base 0')
            return n.v
        if n.kind in 'xX' and base == 16:
            return n.v
        if n.kind == 'r':
            return int(s.concrete(cap=8), base)
    if base in (16, 0) and len(it) > 2 and it[0] == '0' and type(it[1]) is str and it[1] in 'xX':
        base = 16
        it = it[2:]
        if len(it) == 1 and type(it[0]) is Num and it[0].kind in 'xX':
            return it[0].v
    it = SStr(it).flat()
    neg = False
    first = it[0]
    if type(first) is str:
        if first in '+-':
            neg = first == '-'
            it = it[1:]
    else:
        if bool(first == ord('-')):
            neg = True
            it = it[1:]
        elif bool(first == ord('+')):
            it = it[1:]
    if not it:
        raise ValueError('invalid literal for int()')
    if base == 0:
        # symbolic leading digit: only plain decimal literals are modelled
        if len(it) > 1 and not (type(it[0]) is str and it[0] != '0'):
            if bool(cp(it[0]) == 48):
                return int(mkstr((['-'] if neg else []) + list(it)).concrete(cap=8) if has_sym(mkstr(it)) else ''.join(it), 0)
        base = 10
    r = 0
    for ch in it:
        d = digit_val(ch, base)
        r = ((r << 4) | d if not (type(r) is int and r == 0) else d) if base == 16 else r * base + d
    return -r if neg else r


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    t = type(x)
    if t is str and not x.isascii():
        x = lift(x)
        t = type(x)
    if base is not None:
        if t is SStr:
            return int_of_str(x, conc(base))
        if t in (SBytes, SByteArray):
            return int_of_str(x.decode('latin-1'), conc(base))
        if t in (SInt, SBool, SFloat, SReal):
            raise TypeError("int() can't convert non-string with explicit base")
        return int(x, conc(base))
    if t is SInt:
        return x
    if t is SBool:
        return x._i()
    if t is SStr:
        return int_of_str(x)
    if t in (SBytes, SByteArray):
        return int_of_str(x.decode('latin-1'))
    if t is SReal:
        return x.trunc()
    return int(*a, **k)


def m_float(*a):
    if not a:
        return 0.0
    x = a[0]
    t = type(x)
    if t is str and not x.isascii():
        x = lift(x)
        t = type(x)
    if t in (SFloat, SReal):
        return x
    if t is SInt or t is SBool:
        return to_real(x)
    if t is SStr:
        s = x.strip()
        if type(s) is SStr and len(s.items) == 1 and type(s.items[0]) is Num:
            n = s.items[0]
            if n.kind == 'r':
                return n.v
            if n.kind == 'd':
                return to_real(n.v)
        if type(s) is SStr and all(type(i) is Num or type(i) is str for i in s.items):
            ns = [i for i in s.items if type(i) is Num]
            if len(ns) == 1 and ns[0].kind == 'd' and s.items[0] is ns[0] and ''.join(s.items[1:]) in ('.0', '.'):
                return to_real(ns[0].v)
        return float(conc(s, 24))
    return float(*a)


def m_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    t = type(x)
    if len(a) > 1 or k:
        enc = a[1] if len(a) > 1 else k.get('encoding', 'utf-8')
        if t in (SBytes, SByteArray):
            return x.decode(conc(enc))
        return str(*a, **k)
    if t is SStr:
        return x
    return lift(str(x))


def m_repr(x):
    return lift(repr(x))


def m_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    t = type(x)
    if t is str and not x.isascii():
        x = lift(x)
        t = type(x)
    if t is SStr:
        if len(a) < 2 and 'encoding' not in k:
            raise TypeError('string argument without an encoding')
        return to_bytes(x, a[1] if len(a) > 1 else k['encoding'])
    if len(a) > 1 or k:
        return bytes(*a, **k)
    if t in (SBytes, SByteArray):
        return mkbytes(x.items)
    if t is SInt or t is SBool:
        return bytes(x.concrete(cap=300) if t is SInt else int(bool(x)))
    if t in (bytes, bytearray, memoryview, int, bool):
        return bytes(x)
    if hasattr(x, '__bytes__'):
        return x.__bytes__()
    if hasattr(x, '__iter__') or hasattr(x, '__getitem__'):
        return mkbytes([chkbyte(i) for i in x])
    return bytes(x)


def m_bytearray(*a, **k):
    if not a:
        return SByteArray([])
    return SByteArray(list(bitems(m_bytes(*a, **k))))


def m_memoryview(x):
    if type(x) in (SBytes, SByteArray):
        return x
    return memoryview(x)


def m_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    if n is None:
        return round(x)
    return round(x, n if type(n) is not SInt else n.concrete())


def m_abs(x):
    return abs(x)


def m_range(*a):
    return range(*[x.concrete() if type(x) is SInt else x for x in a])


def m_format(x, spec=''):
    return lift(format(x, conc(spec)))


def m_hex(x):
    if type(x) is SInt and x.lo >= 0:
        return SStr(['0', 'x', Num('x', x)])
    return hex(conc(x))


def m_bool(*a):
    if not a:
        return False
    x = a[0]
    if type(x) is SBool:
        return x
    if type(x) is SInt:
        return x != 0
    return bool(x)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_min_max(f, less):
    def m(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if 'key' in k:
            k = dict(k, key=cb(k['key']))
        if k or not any(type(x) in (SInt,) for x in xs) or not all(type(x) in (int, SInt, bool) for x in xs):
            return f(*a, **k) if len(a) != 1 else f(xs, **k)
        r = xs[0]
        for x in xs[1:]:
            c = (x < r) if less else (x > r)
            r = ite(c, x, r)
            if type(r) is SInt:
                r = narrow_mm(r, xs, less)
        return r
    return m


def narrow_mm(r, xs, less):
    los = [x if type(x) is not SInt else x.lo for x in xs]
    his = [x if type(x) is not SInt else x.hi for x in xs]
    return r


def m_print(*a, **k):
    f = k.get('file')
    if f is not None and f not in (sys.stdout, sys.stderr):
        print(*a, **k)
    elif E.cur is not None and E.cur.out is not None and f is not sys.stderr:
        for i, x in enumerate(a):
            if i:
                E.cur.out.append(' ' if k.get('sep') is None else k['sep'])
            E.cur.out.append(m_str(x))
        E.cur.out.append('\n' if k.get('end') is None else k['end'])


def m_divmod(a, b):
    return a // b, mod(a, b)


def m_pow(a, b, m=None):
    if m is not None:
        return pow(conc(a), conc(b), conc(m))
    return a ** b


def m_math_pow(a, b):
    if type(b) is SInt:
        b = b.concrete()
    if type(a) in (SInt, SReal, SFloat):
        if b == 1:
            return m_float(a)
        a = a.concrete(cap=24)
    return math.pow(a, b)


def m_floor(x):
    if type(x) is SInt:
        return x
    if type(x) is SReal:
        return x.floor()
    return math.floor(conc(x, 24))


def m_ceil(x):
    if type(x) is SInt:
        return x
    if type(x) is SReal:
        return -((-x).floor())
    return math.ceil(conc(x, 24))


def m_trunc(x):
    if type(x) is SInt:
        return x
    if type(x) is SReal:
        return x.trunc()
    return math.trunc(conc(x, 24))


def m_isnan(x):
    if type(x) in (SFloat, SReal):
        return x.isnan()
    if type(x) is SInt:
        return False
    return math.isnan(x)


def m_isinf(x):
    if type(x) is SFloat:
        return x.isinf()
    if type(x) in (SInt, SReal):
        return False
    return math.isinf(x)


def m_fabs(x):
    if type(x) is SFloat:
        return abs(x)
    return abs(m_float(x))


# ------------------------------------------------------------------ struct
FMT = re.compile(r'(\d*)([xcbB?hHiIlLqQnNefdspP])')
SIZES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
         'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    fmt = conc(fmt)
    order = '@'
    if fmt and fmt[0] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    out = []
    for n, c in FMT.findall(fmt.replace(' ', '')):
        out.append((int(n) if n else (1 if c != 's' else 1), c, bool(n)))
    return order, out


def s_pack(fmt, *args):
    if not any(is_sym(a) for a in args) and not (type(fmt) is SStr):
        return struct.pack(fmt, *args)
    order, codes = parse_fmt(fmt)
    big = order in '>!'
    args = list(args)
    out = []

    def nxt():
        if not args:
            raise struct.error('pack expected more items for packing')
        return args.pop(0)
    for n, c, _ in codes:
        if c == 'x':
            out += [0] * n
        elif c in 'sp':
            v = nxt()
            it = bitems(v)
            if it is None or c == 'p':
                raise struct.error("argument for 's' must be a bytes object")
            it = list(it)[:n]
            out += it + [0] * (n - len(it))
        elif c == 'c':
            for _k in range(n):
                it = bitems(nxt())
                if it is None or len(it) != 1:
                    raise struct.error('char format requires a bytes object of length 1')
                out += list(it)
        elif c in SIZES:
            size, sg = SIZES[c]
            if order == '@' and c in 'lL':
                size = 8
            for _k in range(n):
                v = nxt()
                if type(v) not in (int, bool, SInt, SBool):
                    if type(v) in (float, SFloat, SReal) or v is None or isinstance(v, (str, bytes)) or not hasattr(v, '__index__'):
                        raise struct.error('required argument is not an integer')
                    v = v.__index__()
                b = pack_int(v, size, sg, struct.error('argument out of range'))
                b = list(bitems(b))
                out += b if big else b[::-1]
        elif c == 'f':
            for _k in range(n):
                v = nxt()
                if type(v) is SFloat:
                    out += list(bitems(pack_int(v.b, 4, False, OverflowError())))
                else:
                    if is_sym(v) and type(v) not in (SInt, SReal, SBool):
                        raise struct.error('required argument is not a float')
                    out += list(struct.pack('>f', conc(v, 24)))
                if not big:
                    out[-4:] = out[-4:][::-1]
        elif c == '?':
            for _k in range(n):
                out.append(1 if bool(nxt()) else 0)
        else:
            for _k in range(n):
                b = struct.pack((order if order != '@' else '=') + c, conc(nxt(), 24))
                out += list(b)
    if args:
        raise struct.error('pack expected fewer items for packing')
    return mkbytes(out)


def s_unpack(fmt, data):
    if not is_sym(data):
        return struct.unpack(conc(fmt), data)
    order, codes = parse_fmt(fmt)
    size = struct.calcsize(conc(fmt))
    it = bitems(data)
    if it is None:
        raise TypeError("a bytes-like object is required, not '%s'" % pytype(data).__name__)
    it = list(it)
    if len(it) != size:
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    if order == '@' and len(codes) > 1 or any(c in 'pPnNe' for _n, c, _x in codes):
        return struct.unpack(conc(fmt), conc(mkbytes(it), 24))
    big = order in '>!'
    out = []
    p = 0
    for n, c, _ in codes:
        if c == 'x':
            p += n
        elif c == 's':
            out.append(mkbytes(it[p:p + n]))
            p += n
        elif c == 'c':
            for _k in range(n):
                out.append(mkbytes(it[p:p + 1]))
                p += 1
        elif c == '?':
            for _k in range(n):
                out.append(m_bool(it[p]))
                p += 1
        elif c == 'f':
            for _k in range(n):
                b = it[p:p + 4]
                p += 4
                if not big:
                    b = b[::-1]
                if all(type(x) is int for x in b):
                    out.append(struct.unpack('>f', bytes(b))[0])
                else:
                    u = unpack_int(b, False)
                    out.append(SFloat(u) if type(u) is SInt else struct.unpack('>f', u.to_bytes(4, 'big'))[0])
        elif c == 'd':
            for _k in range(n):
                out.append(struct.unpack('>d' if big else '<d', conc(mkbytes(it[p:p + 8]), 24))[0])
                p += 8
        else:
            sz, sg = SIZES[c]
            if order == '@' and c in 'lL':
                sz = 8
            for _k in range(n):
                b = it[p:p + sz]
                p += sz
                out.append(unpack_int(b if big else b[::-1], sg))
    return tuple(out)


def s_unpack_from(fmt, buffer, offset=0):
    size = struct.calcsize(conc(fmt))
    offset = conc(offset)
    if len(buffer) - offset < size:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % (size + offset))
    return s_unpack(fmt, buffer[offset:offset + size])


def s_iter_unpack(fmt, buffer):
    size = struct.calcsize(conc(fmt))
    if len(buffer) % size:
        raise struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
    return iter([s_unpack(fmt, buffer[i:i + size]) for i in range(0, len(buffer), size)])


def s_pack_into(fmt, buffer, offset, *args):
    b = bitems(s_pack(fmt, *args))
    for i, x in enumerate(b):
        buffer[offset + i] = x


def int_from_bytes(data, byteorder='big', *, signed=False):
    it = bitems(data)
    if it is None:
        it = [chkbyte(i) for i in data]
    it = list(it)
    if conc(byteorder) == 'little':
        it = it[::-1]
    if not it:
        return 0
    return unpack_int(it, bool(signed))


# ------------------------------------------------------------------ hex text
def hexbytes(s, what='Non-hexadecimal digit found', exc=ValueError, casefold=True):
    it = SStr(list(sitems(s))).flat() if sitems(s) is not None else [codechar(i) for i in bitems(s)]
    if len(it) % 2:
        raise exc('Odd-length string')
    out = []
    for k in range(0, len(it), 2):
        ds = []
        for ch in it[k:k + 2]:
            if not casefold:
                lower = ('a' <= ch <= 'f') if type(ch) is str else \
                    ((not ch.tag[2]) and bool(ch.tag[1] >= 10) if ch.tag and ch.tag[0] == 'hex' else bool(sand([ch >= 97, ch <= 102])))
                if lower:
                    raise exc(what)
            try:
                ds.append(digit_val(ch, 16))
            except ValueError:
                raise exc(what)
        out.append((ds[0] << 4) | ds[1])
    return mkbytes(out)


def m_b16decode(s, casefold=False):
    return hexbytes(s, 'Non-base16 digit found', binascii.Error, bool(casefold))


def m_unhexlify(s):
    return hexbytes(s, 'Non-hexadecimal digit found', binascii.Error)


def m_fromhex(s):
    return hexbytes(s.replace(' ', '') if type(s) is SStr else s)


def m_hexlify(b, *a):
    return mkbytes([ord(c) if type(c) is str else c for c in sitems(SBytes(list(bitems(b))).hex())])


def m_b16encode(b):
    out = []
    for i in bitems(b):
        out += [hexchar(i >> 4, True), hexchar(i & 15, True)]
    return mkbytes([ord(c) if type(c) is str else c for c in out])


# ------------------------------------------------------------------ formatting
PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def mod(a, b):
    t = type(a)
    if t is SStr or (isinstance(a, str) and (has_sym(b, 1) or has_deep(b))):
        return pct_format(a, b)
    if isinstance(a, (bytes, bytearray)) and has_sym(b, 1):
        E.cur.note_incomplete('bytes % formatting concretised')
        return a % conc(b, 6)
    if is_sym(b) and not is_sym(a):
        if type(b) is SInt:
            return a % b.concrete()
    return a % b


def has_deep(b):
    # objects with own __str__ can smuggle placeholders: lift afterwards handles it
    return False


def pct_format(fmt, args):
    out = []
    s = str(fmt)            # placeholders survive as plain characters
    pos = 0
    idx = 0
    tup = args if isinstance(args, tuple) else (args,)

    def take():
        nonlocal idx
        if idx >= len(tup):
            raise TypeError('not enough arguments for format string')
        v = tup[idx]
        idx += 1
        return v
    for m in PCT.finditer(s):
        out += list(s[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            v = args[key]
        else:
            if width == '*':
                width = str(conc(take()))
            v = take()
        spec = '%' + (flags or '') + (width or '') + ('.' + prec if prec else '') + conv
        if conv in 'diu' and type(v) in (SReal, SFloat):
            v = m_int(v)
        if conv in 'diu' and (type(v) is SStr or v is None or isinstance(v, (str, bytes))):
            raise TypeError('%%%s format: a real number is required, not %s' % (conv, pytype(v).__name__))
        if conv in 'xXoc' and type(v) in (SReal, SFloat):
            raise TypeError('%%%s format: an integer is required, not float' % conv)
        if type(v) is SInt and conv in 'diuxX' and not prec and set(flags or '') <= set('0'):
            k = 'd' if conv in 'diu' else conv
            w = width or ''
            if w and '0' not in (flags or ''):
                out += pad_items(fmt_int(v, k), ' ', '>', int(w))
            else:
                out += fmt_int(v, ('0' + w if w else '') + k)
        elif type(v) is SInt and conv == 'c':
            out.append(codechar(v))
        elif conv == 's' and set(flags or '') <= set('-'):
            x = m_str(v)
            if prec:
                x = x[:int(prec)]
            x = list(sitems(x))
            out += pad_items(x, ' ', '<' if flags else '>', int(width)) if width else x
        elif conv == 'r' and is_sym(v):
            out += list(sitems(m_repr(v)))
        elif is_sym(v):
            out += list(spec % (conc(v, 24),))
        else:
            out += list(sitems(lift(spec % (v,))))
    out += list(s[pos:])
    if idx < len(tup) and not isinstance(args, dict) and (isinstance(args, tuple)):
        raise TypeError('not all arguments converted during string formatting')
    if not isinstance(args, (tuple, dict)) and idx == 0 and args != ():
        if not PCT.search(s):
            raise TypeError('not all arguments converted during string formatting')
    return lift(''.join(i if type(i) is str else E.cur.placeholder(i) for i in out))


def str_format(s, *a, **k):
    return lift(str(s).format(*a, **k))


# ------------------------------------------------------------------ XML
TEXT_SPECIAL = frozenset('<>&\r')
ATTR_SPECIAL = frozenset('<>&"\'\r\n\t')


def plain_chars(text, context):
    """Assert (by branching) that the symbolic characters in a text are none that XML treats specially;
    where they may be, the path splits over their values.  context: 'text', 'attr' or 'doc' (a document)."""
    s = lift(text) if type(text) is str else text
    if type(s) is not SStr:
        return s
    tag = context == 'attr'
    syms = {}

    def bad(c, special):
        r = [c == ord(x) for x in special]
        if c.hi >= 128:
            r.append(c >= 128)
        if c.lo < 32:
            r.append(sand([c < 32, c != 9, c != 10]))
        return r
    for k, i in enumerate(s.items):
        if context == 'doc' and type(i) is str:
            tag = True if i == '<' else False if i == '>' else tag
        elif type(i) is SInt:
            syms[k] = sor(bad(i, ATTR_SPECIAL if tag else TEXT_SPECIAL))
    if not syms or not bool(sor(list(syms.values()))):
        return s
    return mkstr([chr(i.concrete(cap=200)) if k in syms and bool(syms[k]) else i for k, i in enumerate(s.items)])


def x_fromstring(text, parser=None):
    t = type(text)
    if t is SStr:
        text = str(text)
    elif t in (SBytes, SByteArray):
        text = str(text.decode('latin-1'))
    if isinstance(text, str):
        text = str(plain_chars(text, 'doc'))
    root = ET.fromstring(text)
    for e in root.iter():
        if e.text:
            e.text = lift(e.text)
        if e.tail:
            e.tail = lift(e.tail)
        for k in list(e.attrib):
            e.attrib[k] = lift(e.attrib[k])
    return root


def ser_check(v, context='text'):
    if type(v) is SStr:
        return str(plain_chars(v, context))
    if is_sym(v):
        raise TypeError('cannot serialize %s' % (pytype(v).__name__,))
    return v


def x_clone(e):
    n = ET.Element(e.tag, dict((ser_check(k), ser_check(v, 'attr')) for k, v in e.attrib.items()))
    n.text = ser_check(e.text)
    n.tail = ser_check(e.tail)
    for c in e:
        n.append(x_clone(c))
    return n


def x_tostring(elem, *a, **k):
    r = ET.tostring(x_clone(elem), *a, **k)
    return lift(r) if isinstance(r, str) else r


def x_parse(source, parser=None):
    if isinstance(source, str):
        source = m_open(source, 'rb')
    return ET.ElementTree(x_fromstring(source.read()))


# ------------------------------------------------------------------ files
def path(p):
    """Concrete path for a possibly symbolic one: the solver decides which existing directory entry it
    equals; a path equal to none of them is represented by one that does not exist."""
    if type(p) is not SStr:
        return conc(p, 24)
    head = ''
    items = list(p.items)
    for i, it in enumerate(items):
        if type(it) is not str:
            if not all(type(x) is str and x != '/' or type(x) is Num and x.kind == 'd' for x in items[i:]):
                return conc(p, 24)
            break
        head += it
    d, _, stem = head.rpartition('/')
    base = mkstr(list(stem) + items[len(head):])
    root = d + '/' if '/' in head else ''
    names = set()
    fs = E.cur and E.cur.fs
    if fs is not None:
        for t in (fs.files, fs.dirs, fs.zips):
            names.update(os.path.basename(k) for k in t if os.path.dirname(k) == os.path.normpath(d or '.'))
    try:
        names.update(os.listdir(root or '.'))
    except OSError:
        pass
    for n in sorted(names):
        if bool(base == n):
            return root + n
    return root + '@no-such-file'


def m_exists(p):
    fs = E.cur and E.cur.fs
    p = path(p)
    if fs is not None:
        r = fs.exists(p)
        if r is not None:
            return r
    return os.path.exists(p)


def m_isfile(p):
    fs = E.cur and E.cur.fs
    p = path(p)
    if fs is not None:
        r = fs.exists(p)
        if r is not None:
            return r and fs.isfile(p)
    return os.path.isfile(p)


def m_isdir(p):
    fs = E.cur and E.cur.fs
    p = path(p)
    if fs is not None:
        r = fs.exists(p)
        if r is not None:
            return r and not fs.isfile(p)
    return os.path.isdir(p)


def m_open(p, mode='r', *a, **k):
    fs = E.cur and E.cur.fs
    if not isinstance(p, int):
        p = path(p)
        r = fs.open(p, conc(mode)) if fs is not None else None
        if r is not None:
            return r
    return open(p, conc(mode), *a, **k)


def m_zipfile(p, mode='r', *a, **k):
    fs = E.cur and E.cur.fs
    if fs is not None and isinstance(p, str):
        r = fs.open_zip(conc(p, 24))
        if r is not None:
            return zipfile.ZipFile(r)
    return zipfile.ZipFile(p, mode, *a, **k)


def m_is_zipfile(p):
    fs = E.cur and E.cur.fs
    if fs is not None and isinstance(p, str):
        r = fs.open_zip(conc(p, 24))
        return r is not None
    return zipfile.is_zipfile(p)


def m_join(a, *p):
    if any(is_sym(x) for x in (a,) + p):
        out = a
        for x in p:
            if len(x) and str(x)[0] == '/':
                out = x
            elif not len(out) or str(out)[-1] == '/':
                out = out + x
            else:
                out = out + '/' + x
        return out
    return os.path.join(a, *p)


def m_fspath(p):
    return p if type(p) is SStr else os.fspath(p)


def m_codecs_encode(o, enc='utf-8', errors='strict'):
    if enc in ('hex', 'hex_codec') and type(o) in (SBytes, SByteArray):
        return m_hexlify(o)
    if type(o) is SStr:
        return to_bytes(o, enc)
    return codecs.encode(conc(o, 6), enc, errors)


def m_codecs_decode(o, enc='utf-8', errors='strict'):
    if type(o) in (SBytes, SByteArray):
        if enc in ('hex', 'hex_codec'):
            return hexbytes(o)
        return o.decode(enc)
    return codecs.decode(conc(o, 6), enc, errors)


def m_sleep(s):
    stubs.sleep(s)


def m_getattr(o, name, *d):
    return getattr(o, conc(name, 24), *d)


def m_hasattr(o, name):
    return hasattr(o, conc(name, 24))


def m_setattr(o, name, v):
    return setattr(o, conc(name, 24), v)


def m_operator(op):
    return lambda a, b: op(a, b)


class SBytesIO(object):
    """io.BytesIO / io.StringIO holding symbolic contents"""
    kind = bytes

    def __init__(self, initial=None):
        self.buf = (b'' if self.kind is bytes else '') if initial is None else initial
        self.pos = 0
        self.closed = False

    def write(self, data):
        n = len(data)
        self.buf = self.buf[:self.pos] + data + self.buf[self.pos + n:]
        self.pos += n
        return n

    def read(self, n=-1):
        e = len(self.buf) if n is None or n < 0 else self.pos + conc(n)
        r = self.buf[self.pos:e]
        self.pos += len(r)
        return r

    read1 = read

    def getvalue(self):
        return self.buf

    def getbuffer(self):
        return self.buf

    def tell(self):
        return self.pos

    def seek(self, p, whence=0):
        self.pos = conc(p) + (0 if whence == 0 else self.pos if whence == 1 else len(self.buf))
        return self.pos

    def readline(self):
        nl = b'\n' if self.kind is bytes else '\n'
        rest = self.buf[self.pos:]
        k = rest.find(nl)
        return self.read(-1 if k < 0 else k + 1)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def readlines(self):
        return list(self)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SStringIO(SBytesIO):
    kind = str


def cb(f):
    """a callable handed to native code: builtins among them go through their models"""
    if f is None or type(f) is FN or type(f) is MT or not callable(f):
        return f
    return lambda *a, **k: call(f, *a, **k)


def m_map(f, *its):
    return map(cb(f), *its)


def m_filter(f, it):
    return filter(cb(f), it)


def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=cb(key), reverse=reverse)


def m_reduce(f, it, *init):
    it = iter(it)
    if init:
        r = init[0]
    else:
        try:
            r = next(it)
        except StopIteration:
            raise TypeError('reduce() of empty iterable with no initial value') from None
    for x in it:
        if E.cur is not None:
            E.cur.tick()
        r = call(f, r, x)
    return r


def mkdict(pairs):
    d = {}
    w = Hooks.W(d)
    for k, v in pairs:
        w[k] = v
    return d


def m_dict(*a, **k):
    if a:
        x = a[0]
        if hasattr(x, 'keys'):
            if isinstance(x, dict) and E.cur is not None and id(x) in E.cur.symdicts:
                d = mkdict(x.items())
            else:
                d = dict(x)
        else:
            d = mkdict(list(x))
    else:
        d = {}
    d.update(k)
    return d


def m_copy(x):
    return x.copy() if type(x) is SByteArray else x if type(x) in SYMSET else copy.copy(x)


def m_deepcopy(x, memo=None):
    return x.copy() if type(x) is SByteArray else x if type(x) in SYMSET else copy.deepcopy(x, memo)


TABLE = {
    type: m_type, isinstance: m_isinstance, len: m_len, ord: m_ord, chr: m_chr, int: m_int, float: m_float,
    str: m_str, repr: m_repr, bytes: m_bytes, bytearray: m_bytearray, memoryview: m_memoryview, round: m_round,
    abs: m_abs, range: m_range, format: m_format, hex: m_hex, bool: m_bool, sum: m_sum, print: m_print,
    min: m_min_max(min, True), max: m_min_max(max, False), divmod: m_divmod, pow: m_pow,
    math.pow: m_math_pow, math.floor: m_floor, math.ceil: m_ceil, math.trunc: m_trunc, math.isnan: m_isnan,
    math.isinf: m_isinf, math.fabs: m_fabs,
    struct.pack: s_pack, struct.unpack: s_unpack, struct.unpack_from: s_unpack_from,
    struct.iter_unpack: s_iter_unpack, struct.pack_into: s_pack_into,
    base64.b16decode: m_b16decode, base64.b16encode: m_b16encode, binascii.unhexlify: m_unhexlify,
    binascii.a2b_hex: m_unhexlify, binascii.hexlify: m_hexlify, binascii.b2a_hex: m_hexlify,
    ET.fromstring: x_fromstring, ET.XML: x_fromstring, ET.tostring: x_tostring, ET.parse: x_parse,
    os.path.exists: m_exists, os.path.isfile: m_isfile, os.path.isdir: m_isdir, open: m_open, io.open: m_open,
    os.path.join: m_join, os.fspath: m_fspath, zipfile.ZipFile: m_zipfile, zipfile.is_zipfile: m_is_zipfile,
    codecs.encode: m_codecs_encode, codecs.decode: m_codecs_decode, time.sleep: m_sleep,
    getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr,
    operator.mod: mod, functools.reduce: m_reduce, dict: m_dict, map: m_map, filter: m_filter, sorted: m_sorted,
    copy.copy: m_copy, copy.deepcopy: m_deepcopy, io.BytesIO: SBytesIO, io.StringIO: lambda initial='', newline=None: SStringIO(initial),
}
ALWAYS = frozenset([type, isinstance, bytearray, print, open, io.open, os.path.exists, os.path.isfile, os.path.isdir,
                    zipfile.ZipFile, zipfile.is_zipfile, ET.tostring, ET.fromstring, ET.XML, ET.parse, time.sleep,
                    sum, str, repr, format, bytes, functools.reduce, dict, map, filter, sorted, io.BytesIO, io.StringIO])
# native callables that may receive symbolic values untouched
PURE = frozenset([list, tuple, dict, set, frozenset, enumerate, zip, map, filter, reversed, sorted, iter, next, id,
                  any, all, callable, object, slice, property, issubclass, super, staticmethod, classmethod,
                  ET.Element, ET.SubElement, ET.iselement, hash])
PURE_METHODS = {
    list: None, set: None, type(iter([])): None,
    ET.Element: None, tuple: None,
}
KEYED = ('get', 'pop', 'setdefault', '__getitem__', '__contains__')


def find_key(d, k):
    """(found, actual key): dictionary lookup with a symbolic key by case split over the keys."""
    for kk in list(d):
        if pytype(kk) is not pytype(k) and not (pytype(kk) in (int, bool, float) and pytype(k) in (int, bool, float)):
            if not (isinstance(kk, tuple) and isinstance(k, tuple)):
                continue
        r = deep_eq(kk, k)
        if bool(r):
            return True, kk
    return False, None


def keycopy(k):
    if type(k) is tuple:
        return tuple(keycopy(i) for i in k)
    if type(k) is str:
        k = lift(k)
    if type(k) in SYMSET:
        if type(k) is not SInt and type(k) is not SStr and type(k) is not SBytes:
            return conc(k)
        k = copy.copy(k)
        E.cur.symkeys[id(k)] = k
    return k


def newkey(d, k):
    """key object to store under in d when symbolic k equals none of its keys"""
    E.cur.symdicts[id(d)] = d
    return keycopy(k)


def needs_find(d, k):
    return symkey(k) or (E.cur is not None and id(d) in E.cur.symdicts)


def deep_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and sand([deep_eq(x, y) for x, y in zip(a, b)])
    return a == b


def symkey(k):
    t = type(k)
    if t in SYMSET:
        return True
    if t is tuple:
        return any(symkey(i) for i in k)
    if t is str and not k.isascii():
        return type(lift(k)) is SStr
    return False


def fallback(f, a, k):
    c = E.cur
    name = getattr(f, '__qualname__', None) or getattr(f, '__name__', None) or repr(f)
    c.concretised[name] = c.concretised.get(name, 0) + 1
    return f(*[conc(x, 6) for x in a], **dict((n, conc(v, 6)) for n, v in k.items()))


def is_own(f):
    g = getattr(f, '__globals__', None)
    return g is not None and (OWN_MARK in g or g.get('__name__', '').startswith('symx'))


def own_type(t):
    m = sys.modules.get(t.__module__)
    return getattr(t, '__module__', '').split('.')[0] in OWN_PKGS


OWN_PKGS = {'sunspec', 'symx', 'props', 'harness'}


def call(f, *a, **k):
    t = type(f)
    if t is FN:
        if is_own(f):
            return f(*a, **k)
    elif t is MT:
        if is_own(f.__func__):
            return f(*a, **k)
    try:
        h = TABLE.get(f)
    except TypeError:
        h = None
    if h is not None:
        if f in ALWAYS:
            return h(*a, **k)
        for x in a:
            if type(x) in SYMSET or type(x) is str and not x.isascii() or type(x) in (list, tuple):
                return h(*a, **k)
        for x in k.values():
            if type(x) in SYMSET:
                return h(*a, **k)
        return f(*a, **k)
    if t is type or isinstance(f, type):
        if f.__module__ == 'itertools':
            return f(*[cb(x) if callable(x) else x for x in a], **k)
        if f.__module__ == 'collections':
            return f(*a, **k)
        if f in PURE or issubclass(f, BaseException) or own_type(f) or type(f) is not type and OWN_MARK:
            if f in (dict, set, frozenset) and a:
                return f(*a, **k)
            return f(*a, **k)
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return fallback(f, a, k)
        return f(*a, **k)
    if t is BM or t is MW:
        s = f.__self__
        ts = type(s)
        name = f.__name__
        if s is None or ts is types.ModuleType:
            if f is operator.getitem:
                return Hooks.getitem(*a)
            if f is operator.contains:
                return Hooks.contains(*a)
            if f in PURE or f.__module__ == '_operator':
                return f(*a, **k)
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                return fallback(f, a, k)
            return f(*a, **k)
        if ts in SYMSET:
            return f(*a, **k)
        if ts is dict or isinstance(s, dict):
            if a and name in KEYED and needs_find(s, a[0]):
                found, kk = find_key(s, a[0])
                if found:
                    if name == '__contains__':
                        return True
                    return f(kk, *a[1:], **k)
                if name == '__contains__':
                    return False
                if name == 'get':
                    return a[1] if len(a) > 1 else None
                if name == 'setdefault':
                    r = a[1] if len(a) > 1 else None
                    s[newkey(s, a[0]) if symkey(a[0]) else a[0]] = r
                    return r
                if name == 'pop' and len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            return f(*a, **k)
        if getattr(s, '__module__', '') == 'itertools' or ts.__module__ == 'collections':
            return f(*a, **k)
        if s is int and name == 'from_bytes':
            return int_from_bytes(*a, **k)
        if s is bytes and name == 'fromhex' or s is bytearray and name == 'fromhex':
            r = m_fromhex(*a) if has_sym(a[0]) else bytes.fromhex(*a)
            return r if s is bytes else SByteArray(list(bitems(r)))
        if ts is str:
            if not s.isascii():
                s2 = lift(s)
                if type(s2) is SStr:
                    return getattr(s2, name)(*a, **k)
            if name == 'format':
                return str_format(s, *a, **k)
            if name == 'join':
                it = list(a[0])
                if any(type(x) in SYMSET for x in it):
                    return str_join(s, it)
                return lift(s.join(it))
            if any(has_sym(x) for x in a):
                return getattr(SStr(list(s)), name)(*a, **k)
            return f(*a, **k)
        if ts is bytes:
            if name == 'join':
                it = list(a[0])
                if any(type(x) in SYMSET for x in it):
                    return bytes_join(s, it)
                return s.join(it)
            if any(has_sym(x) for x in a):
                return getattr(SBytes(list(s)), name)(*a, **k)
            return f(*a, **k)
        if ts is struct.Struct:
            if name == 'pack':
                return s_pack(s.format, *a)
            if name == 'unpack':
                return s_unpack(s.format, *a)
            if name == 'unpack_from':
                return s_unpack_from(s.format, *a, **k)
            if name == 'iter_unpack':
                return s_iter_unpack(s.format, *a)
        if ts is list and name == 'sort' and k.get('key') is not None:
            return f(key=cb(k['key']), reverse=k.get('reverse', False))
        if ts in PURE_METHODS or isinstance(s, (list, set, tuple, ET.Element)):
            return f(*a, **k)
        if isinstance(s, io.IOBase) or not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            return f(*a, **k)
        if type(s).__module__.startswith('symx') or isinstance(s, types.GeneratorType):
            return f(*a, **k)
        if ts is float or ts is int:
            return fallback(f, a, k)
        return fallback(f, a, k)
    if t is MD:
        # unbound method of a builtin type: str.upper(x)
        if a and type(a[0]) in SYMSET:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a:
            return call(getattr(a[0], f.__name__), *a[1:], **k) if hasattr(a[0], f.__name__) else f(*a, **k)
        return f(*a, **k)
    if t is FN or t is MT:
        # library code written in Python
        if f.__module__ == 'logging' or f.__module__ == 'warnings':
            # log records are not part of any property; formatting symbolic values would split paths
            return f(*a, **k) if not any(has_sym(x) for x in a) else None
        if t is MT and (own_type(type(f.__self__)) or isinstance(f.__self__, type) and own_type(f.__self__)):
            return f(*a, **k)              # e.g. namedtuple, dataclass and Enum helpers of a sunspec class
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if getattr(f, '__module__', '') in ('contextlib', 'functools', 'xml.etree.ElementTree'):
                return f(*a, **k)
            return fallback(f, a, k)
        return f(*a, **k)
    if isinstance(f, functools.partial):
        kk = dict(f.keywords)
        kk.update(k)
        return call(f.func, *(f.args + a), **kk)
    if isinstance(f, operator.itemgetter):
        ks = f.__reduce__()[1]
        return Hooks.getitem(a[0], ks[0]) if len(ks) == 1 else tuple(Hooks.getitem(a[0], i) for i in ks)
    if isinstance(f, operator.attrgetter):
        return f(*a, **k)
    if isinstance(f, operator.methodcaller):
        c, ma = f.__reduce__()
        if isinstance(c, functools.partial):
            return call(getattr(a[0], c.args[0]), *ma, **c.keywords)
        return call(getattr(a[0], ma[0]), *ma[1:])
    if type(f).__name__ == '_lru_cache_wrapper' and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
        return call(f.__wrapped__, *a, **k)
    if own_type(type(f)):
        return f(*a, **k)
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
        return fallback(f, a, k)
    return f(*a, **k)


# ------------------------------------------------------------------ hooks
class Hooks(object):
    """The object bound to `_sx` in instrumented modules."""
    call = staticmethod(call)
    mod = staticmethod(mod)
    lift = staticmethod(lift)

    @staticmethod
    def plain(x):
        return str(x) if type(x) is SStr else x

    @staticmethod
    def getitem(o, i):
        ti = type(i)
        to = type(o)
        if to in SYMSET:
            return o[i]
        if ti is SInt:
            if to is list or to is tuple:
                return select(o, i)
            if to is bytes or to is bytearray:
                return select(list(o), i)
            if to is str:
                return m_chr(select([ord(c) for c in o], i))
            if isinstance(o, range):
                return o[i.concrete()]
        elif ti is slice:
            if to is str and not o.isascii():
                o = lift(o)
            return o[slice(conc(i.start), conc(i.stop), conc(i.step))]
        if to is str and not o.isascii():
            o = lift(o)
        if isinstance(o, dict) and needs_find(o, i):
            found, kk = find_key(o, i)
            if not found:
                if isinstance(o, collections.defaultdict) and o.default_factory is not None:
                    kk = newkey(o, i) if symkey(i) else i
                    o[kk] = o.default_factory()
                    return o[kk]
                raise KeyError(i)
            return o[kk]
        return o[i]

    class W(object):
        __slots__ = ('o',)

        def __init__(self, o):
            self.o = o

        def _k(self, i):
            if isinstance(self.o, dict):
                if needs_find(self.o, i):
                    found, kk = find_key(self.o, i)
                    return kk if found else newkey(self.o, i) if symkey(i) else i
                return i
            if type(i) is slice:
                return slice(conc(i.start), conc(i.stop), conc(i.step))
            if type(i) is SInt:
                return i.concrete()
            return i

        def __getitem__(self, i):
            return Hooks.getitem(self.o, i)

        def __setitem__(self, i, v):
            self.o[self._k(i)] = v

        def __delitem__(self, i):
            del self.o[self._k(i)]

    @staticmethod
    def contains(c, x):
        if isinstance(c, dict) or isinstance(c, (set, frozenset)):
            if needs_find(c, x):
                return find_key(c, x)[0]
            return x in c
        if type(c) is str:
            if has_sym(x) or not c.isascii():
                return SStr(list(sitems(c))).find(x) >= 0
        elif type(c) is bytes:
            if type(x) is SInt:
                return bool(sor([x == i for i in c]))
            if is_sym(x):
                return SBytes(list(c)).find(x) >= 0
        elif type(c) is range:
            if type(x) is SInt:
                if len(c) == 0:
                    return False
                if c.step == 1:
                    return bool(sand([x >= c.start, x < c.stop]))
                return bool(sor([x == i for i in c]))
        elif type(c) in (list, tuple) and type(x) is SInt and all(type(i) in (int, SInt) for i in c):
            return bool(sor([x == i for i in c]))
        return x in c

    @staticmethod
    def ncontains(c, x):
        return not Hooks.contains(c, x)

    @staticmethod
    def is_(a, b):
        if type(a) is SBool and (b is True or b is False):
            return bool(a) is b
        if type(b) is SBool and (a is True or a is False):
            return bool(b) is a
        return a is b

    @staticmethod
    def isnot(a, b):
        return not Hooks.is_(a, b)

    @staticmethod
    def tick():
        if E.cur is not None:
            E.cur.tick()

    @staticmethod
    def enter(name):
        if E.cur is not None:
            E.cur.functions.add(name)

    @staticmethod
    def reraise():
        if isinstance(sys.exc_info()[1], E.EngineAbort):
            raise

    slice = slice
    mkdict = staticmethod(mkdict)


Hooks.w = Hooks.W
SX = Hooks
