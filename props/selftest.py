"""Engine self-test: every operation below is run symbolically, and each path's model is re-run
natively; `observe` values must agree.  Not a property check."""
import array
import base64
import binascii
import collections
import contextlib
import copy
import functools
import io
import itertools
import logging
import math
import operator
import struct
from dataclasses import dataclass, field
from enum import Enum, IntEnum
from typing import NamedTuple
import xml.etree.ElementTree as ET

META = {'opts': {'wevery': 1, 'witnesses': 60}, 'reach': []}


def ints(cx):
    a = cx.int('a', -300, 70000)
    b = cx.int('b', 0, 255)
    o = []
    o += [a + b, a - b, b - a, a * b, a * 3 - 7, -a, abs(a), a & 0xff, a | b, a ^ b, ~b, a << 3, a >> 2, b >> 1, a & b]
    o += [a // 256, a % 256, a // 7, a % 10, divmod(a, 16), b // 3, (a + 300) % 7]
    o += [a == b, a != b, a < b, a <= b, a > b, a >= b, a == 5, 5 < a]
    cx.observe('o', o)
    if a > b and b:
        cx.observe('x', a // 5 + b)
    elif a < 0:
        cx.observe('neg', [-a // 3, a >> 1, a % 3])
    t = min(a, b)
    cx.observe('mm', [t, max(a, b, 12), sum([a, b, 1])])


def strucs(cx):
    d = cx.bytes('d', 8)
    o = [struct.unpack('>HhI', d), struct.unpack('>q', d), struct.unpack('<HhI', d), struct.unpack('>Q', d),
         struct.unpack('>f', d[:4]), struct.unpack('>BbBb', d[2:6]), struct.unpack('>4s', d[4:])]
    v = struct.unpack('>i', d[:4])[0]
    o += [struct.pack('>i', v), struct.pack('>I', v & 0xffffffff), struct.pack('<Hx2s', v & 0xffff, d[:1])]
    o += [d.hex(), d[::-1], d + b'12', b'1' + d, d[3], d[1:7:2], len(d)]
    cx.observe('o', o)
    try:
        cx.observe('p', struct.pack('>h', v))
    except struct.error:
        cx.observe('err', 1)
    try:
        cx.observe('p', struct.pack('>H', v))
    except struct.error:
        cx.observe('err', 2)
    cx.observe('f', struct.pack('>f', struct.unpack('>f', d[4:])[0])[:1])
    cx.observe('n', [int.from_bytes(d, 'big'), int.from_bytes(d[:3], 'little', signed=True), (v & 0xffff).to_bytes(2, 'big')])


def text(cx):
    a = cx.int('a', 0, 300)
    s = cx.chars('s', 3, 48, 102)
    cx.observe('o', ['%d' % a, '%s:%d' % (s, a), str(a), str(a) + s, s + 'x', '%02x' % (a & 255), '%04X' % a, s.upper(), s.lower(),
                     '{}-{}'.format(a, s), f'{a}/{s}', s[0], s[1:], len(s), s == 'abc', s.startswith('a'), s * 2, s.strip(),
                     [ord(c) for c in s], ','.join([s, str(a)]), s.encode('ascii'), repr(s)])
    try:
        cx.observe('i', int(s))
    except ValueError:
        cx.observe('i', None)


def text2(cx):
    s = cx.chars('s', 3, 48, 102)
    try:
        cx.observe('h', int(s, 16))
    except ValueError:
        cx.observe('h', None)
    a = cx.int('a', -40, 70000)
    cx.observe('r', [int(str(a)), int('%d' % a), float(str(a)), int('0x%x' % (a & 255), 16)])
    cx.observe('c', [str(a) == '17', 'x' + str(a) == 'x-5', str(a) in ('1', '22')])


def hexs(cx):
    d = cx.bytes('d', 3)
    h = ''.join('%02X' % b for b in d)
    cx.observe('o', [h, base64.b16decode(h), binascii.unhexlify(h), bytes.fromhex(h), binascii.hexlify(d), base64.b16encode(d)])
    t = cx.chars('t', 2, 47, 103)
    try:
        cx.observe('b', base64.b16decode(t))
    except binascii.Error:
        cx.observe('b', None)
    try:
        cx.observe('c', bytes.fromhex(t))
    except ValueError:
        cx.observe('c', None)


def xmls(cx):
    e = ET.Element('a', attrib={'v': str(cx.int('a', -5, 1000)), 'w': cx.chars('s', 2)})
    c = ET.SubElement(e, 'b')
    c.text = str(cx.int('b', 0, 65535))
    t = ET.tostring(e)
    if not isinstance(t, str):
        t = t.decode()
    r = ET.fromstring(t)
    cx.observe('o', [r.attrib.get('v'), r.attrib['w'], r.find('b').text, int(r.find('b').text), int(r.attrib['v']), len(r), r.tag])


def conts(cx):
    i = cx.int('i', 0, 6)
    l = [3, 1, 4, 1, 5, 9, 2]
    d = {0: 'a', 2: 'b', 5: 'c'}
    cx.observe('o', [l[i], i in d, d.get(i), d.get(i, 'z'), i in [1, 2], i in (3,), i in range(2, 4)])
    l[i] = 7
    cx.observe('l', l)
    n = 0
    for k in range(i):
        n += l[k]
    while n > 10:
        n -= 4
    cx.observe('n', n)
    b = bytearray(b'abcdefg')
    b[i] = 65
    cx.observe('b', b)
    cx.observe('s', ['abcdefg'[i], b'abcdefg'[i], b'xx'[0:i], list(range(i))])
    ks = cx.chars('k', 1, 97, 100)
    dd = {'a': 1, 'b': 2}
    cx.observe('dk', [dd.get(ks), ks in dd])


def reals(cx):
    a = cx.mint('a', -32768, 32767)
    sf = cx.choice('sf', [-3, -1, 0, 2])
    v = a * math.pow(10, sf)
    cx.observe('same', round(v / math.pow(10, sf)) == a)
    cx.observe('lt', [int(round(v / math.pow(10, sf))) == a, isinstance(v, float)])


def floats(cx):
    f = cx.f32('f')
    cx.observe('o', [math.isnan(f), f == 0, f == 1.5, f != 2.0, bool(f), f == f, math.isinf(f), f is None, struct.pack('>f', f) if not math.isnan(f) else None])


def utf(cx):
    d = cx.bytes('d', 4)
    s = d.decode('latin-1')
    cx.observe('o', [s, s.rstrip('\0'), d.rstrip(b'\0'), d.find(b'\0'), s.find('A'), s.split('\0')[0] if 1 else 0])
    t = cx.chars('c', 4, 44, 58)
    cx.observe('p', [t.split('/'), t.replace('.', '-'), t.isdigit(), t.index('/') if '/' in t else -1, t.endswith('.1')])


U16 = struct.Struct('>H')
WORD = U16.unpack_from
log = logging.getLogger('selftest')
Pair = collections.namedtuple('Pair', 'a b')


class Typed(NamedTuple):
    a: int
    b: int = 3


@dataclass
class Rec(object):
    a: int
    items: list = field(default_factory=list)

    def total(self):
        return self.a + sum(self.items)


class Func(IntEnum):
    READ = 3
    WRITE = 16


class Kind(Enum):
    A = 1
    B = 2


@functools.lru_cache(maxsize=None)
def double(x):
    return x * 2


@contextlib.contextmanager
def guard(log):
    log.append('in')
    try:
        yield log
    except ValueError as e:
        log.append('error')
    finally:
        log.append('out')


def gen(d):
    for b in d:
        if b == 0:
            return
        yield b


def style1(cx):
    d = cx.bytes('d', 4)
    a = cx.int('a', 0, 65535)
    o = [functools.reduce(lambda c, b: (c >> 1) ^ b, d, a), functools.reduce(operator.xor, d), list(map(chr, d)), ''.join(map(chr, d)),
         bytes(map(ord, d.decode('latin-1'))), list(itertools.chain(d[:2], d[2:])), list(itertools.islice(d, 1, 3)),
         list(itertools.accumulate(d)), [tuple(x) for x in zip(d[::2], d[1::2])], list(itertools.chain.from_iterable([d[:1], d[3:]])),
         list(zip(*[iter(d)] * 2)), U16.pack(a), U16.unpack(d[:2]), WORD(d, 2), list(struct.iter_unpack('>H', d)), double(a),
         Pair(a, 2).a + 1, Pair(a, 2)._replace(b=a).b, Typed(a), Rec(a, [1, 2]).total(), Func.READ + a, operator.itemgetter(1)(d),
         operator.methodcaller('hex')(d), operator.getitem(d, 2), copy.copy(d), copy.deepcopy([d, a]), list(enumerate(d, 1)),
         bytes(reversed(d)), bytearray(d)[1:3], [b for b in d if b > 100], {i: b for i, b in enumerate(d)}, dict(x=a),
         list(map('{:02x}'.format, d)), '-'.join(map('%02X'.__mod__, d)), sorted([a, 7]), max(d, key=lambda b: -b), memoryview(d)[1:].tobytes(),
         (a).to_bytes(2, 'big') + bytes(2), list(gen(d))]
    cx.observe('o', o)


def style2(cx):
    a = cx.int('a', 0, 4)
    b = cx.int('b', 0, 4)
    d = collections.defaultdict(list)
    d[a].append(1)
    d[b].append(2)
    od = collections.OrderedDict([(a, 'x')])
    q = collections.deque([a, b])
    q.append(7)
    x = q.popleft()
    ev = []
    with guard(ev):
        if a > b:
            raise ValueError('x')
        ev.append('ok')
    with contextlib.suppress(KeyError):
        {1: 2}[a]
        ev.append('found')
    log.debug('%s', a)
    m = {a: 'p', b: 'q'}
    m.update({a: 'r'})
    cx.observe('o', [len(d), d[a], d.get(b), od[a], x, q[0], ev, len(m), m[a], m[b], a in m, dict([(b, 1)])[b]])
    r = None
    match a:
        case 0:
            r = 'zero'
        case 1 | 2:
            r = 'low'
        case _ if b > 2:
            r = 'bigb'
        case _:
            r = 'other'
    t = 0 if a < b else (n := a * 2)
    cx.observe('m', [r, t, 0 <= a <= b < 4, not a, a and b, a or b, any(x > 2 for x in (a, b)), all([a, b]), next((i for i in (a, b) if i > 3), None)])
    for i in (1, 2, 3):
        if i == a:
            break
    else:
        cx.observe('e', 1)
    try:
        k = Kind(a)
    except ValueError:
        k = None
    cx.observe('k', None if k is None else k.name)
    s, *rest = [a, b, 3]
    cx.observe('s', [s, rest, [*rest, a], {**{'u': a}}])
    buf = io.BytesIO()
    buf.write(bytes([a]))
    cx.observe('bio', [buf.getvalue(), buf.tell()])
    cx.observe('buf', list(iter(lambda it=iter([1, 2, 0]): next(it), 0)))


def style3(cx):
    s = cx.chars('s', 2, 44, 59)
    cx.observe('o', [s.partition('/'), s.rpartition('/'), s.zfill(6), s.ljust(5), s.rjust(5, '0'), s.count('/'), s.rfind('/'), s.removeprefix('/'),
                     s.removesuffix('/'), s.isspace(), s.isascii(), s[::-1], [c for c in s if c.isdigit()], 'x' + s + 'y', s in ('a/b', '1/2'),
                     '{0!s:>5}'.format('a') + s, f'{s!s}', '%s' % (s,), ''.join(reversed(s)), ''.join(filter(str.isdigit, s)), str.upper(s)])
    a = cx.int('a', 0, 300)
    t = f'{s}={a}'
    cx.observe('t', [t.partition('='), t.split('=', 1), t == '1/2=17', t.startswith('1'), f'{a:05d}', f'{a:#06x}', f'{a:x}'.upper(), '{:>3}'.format(5)])


def cases(tier):
    return [('ints', {}), ('strucs', {}), ('text', {}), ('text2', {}), ('hexs', {}), ('xmls', {}), ('conts', {}), ('reals', {}), ('floats', {}), ('utf', {}), ('style1', {}), ('style2', {}), ('style3', {})]
