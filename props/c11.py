"""C11 Modbus map files load exactly and survive a save/load round trip"""
import struct
from props.lib import *
import xml.etree.ElementTree as ET

MBMAP = 'sunspec.core.modbus.mbmap'
META = {
    'bounds': {'quick': 'regs elements of every type alone and in sequences of up to 3, and of 12 without offsets; every value of the integer types and values just outside the range '
                        '(decimal and hexadecimal text); float values k/8 for |k| <= 16; strings of 0..6, 16, 17 and 33 characters (and of 130 with 24 of them symbolic) and hex strings of 0..4, of 16, 40 and 130 registers (20 bytes of any value), every '
                        'declared length 0..4; every combination of given/omitted offsets 0..8; base addresses 0..65535; round trips and comparisons of '
                        'registers added in up to 3 steps; maps of up to 3 blocks of 3 registers and of 12 blocks, every content; hex files of up to 260 bytes',
               'thorough': 'as quick with strings of up to 12 characters, hex strings of 8 registers and sequences of 4 elements'},
    'outside': 'strings longer than their declared length; fill other than null; contiguous elements with differing access; float texts not of the form k/8',
    'reach': ['int', 'added', 'out of range', 'string', 'hex', 'hex too long', 'layout ok', 'overlap', 'round trip', 'equal', 'differ', 'hexfile', 'no data'],
}


def load(cx, text):
    mbmap = cx.mod(MBMAP)
    m = mbmap.ModbusMap(1)
    r, e = cx.raises(lambda: m.from_xml('map.xml', Defs({'map.xml': text})), mbmap.ModbusMapError)
    return m, e


INTS = {'s16': (16, True), 'u16': (16, False), 's32': (32, True), 'u32': (32, False), 's64': (64, True), 'u64': (64, False)}


def integer(cx):
    """a numeric element holds exactly its value, big endian; out of range is an error"""
    mbmap = cx.mod(MBMAP)
    t = cx.p['type']
    bits, signed = INTS[t]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    n = bits // 16
    if cx.p['text'] == 'dec':
        v = cx.int('v', lo - 2, hi + 2)
        s = str(v)
    else:
        v = cx.int('v', 0, hi + 2)
        s = '0x%x' % v
    off = cx.int('off', 0, 60000)
    base = cx.int('base', 0, 5000)
    x = '<mbmap addr="' + str(base) + '"><regs offset="' + str(off) + '" type="' + t + '"'
    if cx.choice('len', [0, 1]):
        x += ' len="%d"' % n
    x += '>' + s + '</regs></mbmap>'
    m, e = load(cx, x)
    inr = cx.all([v >= lo, v <= hi])
    cx.check(cx.iff(inr, e is None), 'a value is accepted exactly when it fits the type')
    if e is not None:
        cx.reach('out of range')
        return
    d = m.read(base + off, n)
    exp = {1: be16, 2: be32, 4: be64}[n](v)
    cx.check(cx.same(d, exp), 'the registers hold the declared value')
    r, e = cx.raises(lambda: m.read(base + off, n + 1), mbmap.ModbusMapError)
    cx.check(e is not None, 'no further registers are defined')
    if off > 0:
        r, e = cx.raises(lambda: m.read(base + off - 1, 1), mbmap.ModbusMapError)
        cx.check(e is not None, 'no earlier registers are defined')
    cx.observe('d', d)
    cx.reach('int')


def floats(cx):
    t = cx.p['type']
    k = cx.choice('k', list(range(-16, 17)))
    x = '<mbmap addr="40000"><regs offset="3" type="%s">%r</regs></mbmap>' % (t, k / 8.0)
    m, e = load(cx, x)
    cx.check(e is None, 'loads')
    n = 2 if t == 'f32' else 4
    d = m.read(40003, n)
    cx.check(cx.same(d, struct.pack('>f' if n == 2 else '>d', k / 8.0)), 'the registers hold the declared value')


def default_value(cx):
    """an element without content holds zero"""
    t = cx.p['type']
    m, e = load(cx, '<mbmap><regs offset="1" type="%s" len="%d" /></mbmap>' % (t, cx.p['n']))
    cx.check(e is None, 'loads')
    off = cx.int('off', 0, 1)
    cx.check(cx.same(m.read(40001, cx.p['n']), b'\0' * (2 * cx.p['n'])), 'an empty element holds zeros')
    mbmap = cx.mod(MBMAP)
    r, e = cx.raises(lambda: m.read(40000 + off, cx.p['n']), mbmap.ModbusMapError)
    cx.check(cx.iff(off == 1, e is None), 'exactly the declared registers are defined')


def string(cx):
    n = cx.p['n']
    ln = cx.choice('len', cx.p['lens'] if 'lens' in cx.p else [None] + [k for k in range(0, cx.p['maxlen'] + 1) if k == 0 or 2 * k >= n])
    s = cx.chars('s', min(n, 24), 33, 126, exclude='<>&') + ('long tail ' * (n // 10))[:n - 25] + 'x' if n > 24 else cx.chars('s', n, 33, 126, exclude='<>&')
    base = cx.int('base', 0, 60000)
    x = '<mbmap addr="' + str(base) + '"><regs offset="2" type="string"'
    if ln is not None:
        x += ' len="%d"' % ln
    x += '>' + s + '</regs></mbmap>'
    m, e = load(cx, x)
    cx.check(e is None, 'loads')
    cnt = ln or (n + 1) // 2
    exp = s.encode('ascii') + b'\0' * (2 * cnt - n)
    mbmap = cx.mod(MBMAP)
    if cnt:
        d = m.read(base + 2, cnt)
        cx.check(cx.same(d, exp), 'the registers hold the text padded with zeros')
        cx.observe('d', d)
    r, e = cx.raises(lambda: m.read(base + 2, cnt + 1), mbmap.ModbusMapError)
    cx.check(e is not None, 'no further registers are defined')
    cx.reach('string')


HEX = '0123456789abcdefABCDEF'


def hexdigits(cx, name, n):
    """n symbolic hex digits of symbolic value and case"""
    s = cx.chars(name, n, 48, 102)
    for c in s:
        o = ord(c)
        cx.assume(cx.any([cx.all([o >= 48, o <= 57]), cx.all([o >= 65, o <= 70]), cx.all([o >= 97, o <= 102])]))
    return s


def nib(cx, c):
    o = ord(c)
    return cx.ite(o <= 57, o - 48, cx.ite(o <= 70, o - 55, o - 87))


def hexval(cx, s):
    return bytes([(nib(cx, s[i]) << 4) | nib(cx, s[i + 1]) for i in range(0, len(s), 2)])


def hexstr(cx):
    n = cx.p['n']           # digits
    if n <= 4:
        s = hexdigits(cx, 's', n)
    else:
        b = cx.bytes('s', min(n // 2, 20)) + bytes([(11 * i + 5) & 255 for i in range(20, n // 2)])
        s = b.hex()
        if cx.choice('upper', [0, 1]):
            s = s.upper()
        if n % 2:
            s = s + '5'
    ln = cx.choice('len', cx.p['lens'] if 'lens' in cx.p else [None] + list(range(0, cx.p['maxlen'] + 1)))
    text = s
    if cx.p.get('spaces'):
        text = ' '.join([s[i:i + cx.p['spaces']] for i in range(0, n, cx.p['spaces'])])
    x = '<mbmap addr="7"><regs offset="2"'
    if cx.choice('typed', [0, 1]):
        x += ' type="hexstr"'
    if ln is not None:
        x += ' len="%d"' % ln
    x += '>' + text + '</regs></mbmap>'
    m, e = load(cx, x)
    cnt = ln or n // 4
    if n % 4 or n // 4 > cnt:
        cx.check(e is not None, 'hex data of a partial register or longer than the declared length is rejected')
        cx.reach('hex too long')
        return
    cx.check(e is None, 'loads')
    mbmap = cx.mod(MBMAP)
    if cnt:
        d = m.read(9, cnt)
        cx.check(cx.same(d, (hexval(cx, s) if n <= 4 else b) + b'\0' * (2 * cnt - n // 2)), 'the registers hold the hex data padded with zeros')
        cx.observe('d', d)
    r, e = cx.raises(lambda: m.read(9, cnt + 1), mbmap.ModbusMapError)
    cx.check(e is not None, 'no further registers are defined')
    cx.reach('hex')


def badhex(cx):
    """a character that is not a hex digit is rejected"""
    s = cx.chars('s', 4, 33, 126, exclude='<>&+-_')
    ok = cx.all([cx.any([cx.all([ord(c) >= 48, ord(c) <= 57]), cx.all([ord(c) >= 65, ord(c) <= 70]), cx.all([ord(c) >= 97, ord(c) <= 102])]) for c in s])
    m, e = load(cx, '<mbmap><regs>' + s + '</regs></mbmap>')
    cx.check(cx.iff(ok, e is None), 'hex data loads exactly when every character is a hex digit')


ELEMS = {'u16': (1, be16, 16), 'u32': (2, be32, 32), 'u64': (4, be64, 64)}


def layout(cx):
    """declared or next free offsets; overlaps and descending offsets rejected"""
    mbmap = cx.mod(MBMAP)
    kinds = cx.p['kinds']
    nxt = 0
    expect = {}
    bad = False
    x = ''
    acc = None
    for i, k in enumerate(kinds):
        give = cx.p['offsets'][i]
        if give:
            off = cx.int('off%d' % i, 0, cx.p.get('maxoff', 8))
        a = ''
        if k in ELEMS:
            cnt, enc, bits = ELEMS[k]
            v = cx.int('v%d' % i, 0, (1 << bits) - 1)
            data = enc(v)
            text = str(v)
            a = ' type="%s"' % k
        elif k == 'string':
            cnt = 2
            text = cx.chars('s%d' % i, 3, 65, 122)
            data = text.encode('ascii') + b'\0'
            a = ' type="string"'
        else:
            cnt = 2
            h = cx.bytes('h%d' % i, 2)
            text = h.hex()
            data = h + b'\0\0'
            a = ' len="2"'
        x += '<regs'
        if give:
            x += ' offset="' + str(off) + '"'
        x += a + ' access="rw">' + text + '</regs>'
        if not give:
            off = nxt
        if bad or bool(off < nxt):
            bad = True
        else:
            off = cx.fork(off)
            for j in range(cnt):
                expect[off + j] = data[2 * j:2 * j + 2]
            nxt = off + cnt
    m, e = load(cx, '<mbmap addr="100">' + x + '</mbmap>')
    if bad:
        cx.check(e is not None, 'overlapping or out-of-order elements are rejected')
        cx.reach('overlap')
        return
    cx.check(e is None, 'elements in ascending order load')
    if e is not None:
        return
    for i in range(-1, nxt + 2):
        r, e = cx.raises(lambda: m.read(100 + i, 1), mbmap.ModbusMapError)
        if i in expect:
            cx.check(e is None and cx.same(r, expect[i]), 'each register holds the declared data')
        else:
            cx.check(e is not None, 'undeclared registers are undefined')
    cx.reach('layout ok')


def header(cx):
    mbmap = cx.mod(MBMAP)
    base = cx.int('base', 0, 65535)
    f = cx.choice('func', [None, 'holding', 'input', 'Holding', 'coil', ''])
    a = cx.choice('access', [None, 'r', 'rw'])
    ga = cx.choice('given', [0, 1])
    meta = dict((k, cx.chars(k, 2, 48, 122, exclude='<>&"')) for k in ('ns', 'lid', 'mapid', 'time') if cx.choice('has' + k, [0, 1]))
    x = '<mbmap'
    if ga:
        x += ' addr="' + str(base) + '"'
    else:
        base = 40000
    if f is not None:
        x += ' func="%s"' % f
    for k in meta:
        x += ' ' + k + '="' + meta[k] + '"'
    d = cx.bytes('d', 4)
    x += '><regs offset="4"'
    if a is not None:
        x += ' access="%s"' % a
    x += '>' + d.hex() + '</regs></mbmap>'
    m, e = load(cx, x)
    if f not in (None, 'holding', 'input'):
        cx.check(e is not None, 'an unknown function is rejected')
        return
    cx.check(e is None, 'loads')
    cx.check(cx.same(m.base_addr, base), 'base address')
    cx.check(m.func == (4 if f == 'input' else 3), 'function')
    cx.check(m.regs[0].access == (a or 'r'), 'access')
    for k in ('ns', 'lid', 'mapid', 'time'):
        cx.check(cx.same(getattr(m, k), meta.get(k)), 'map attribute')
    cx.check(cx.same(m.read(base + 4, 2, m.func), d), 'registers')


def make(cx, spec, tag, base, func='holding', **kw):
    mbmap = cx.mod(MBMAP)
    m = mbmap.ModbusMap(1, func, base, **kw)
    for off, cnt, acc in spec:
        r = m.regs_add(offset=off, count=cnt, access=acc)
        m.write(base + off, cx.bytes(tag + str(off), 2 * cnt))
    return m


def round_trip(cx):
    mbmap = cx.mod(MBMAP)
    base = cx.int('base', 0, 65000)
    func = cx.choice('func', ['holding', 'input'])
    kw = {}
    if cx.p.get('meta'):
        for k in ('ns', 'lid', 'mapid', 'time'):
            kw[k] = cx.chars(k, 2, 48, 122, exclude='<>&"')
    spec = [(o, c, 'rw' if cx.p.get('acc') and i % 2 else 'r' if cx.p.get('acc') else cx.choice('acc%d' % i, ['r', 'rw'])) for i, (o, c) in enumerate(cx.p['spec'])]
    m = make(cx, spec, 'd', base, func, **kw)
    how = cx.p['how']
    n = mbmap.ModbusMap(1)
    if how == 'text':
        t = ET.tostring(m.to_xml())
        n.from_xml('f.xml', Defs({'f.xml': t}))
    elif how == 'element':
        n.from_xml(element=m.to_xml())
    elif how == 'parent':
        p = ET.Element('maps')
        m.to_xml(p)
        n.from_xml(element=ET.fromstring(ET.tostring(p)).find('mbmap'))
    else:
        root = cx.file_tree([('a.xml', True, ET.tostring(m.to_xml()))])
        n.from_xml(root + '/a.xml')
    cx.check(not n.not_equal(m) and not m.not_equal(n), 'a reloaded map compares equal')
    cx.check(cx.same(n.base_addr, base) and n.func == m.func, 'base address and function')
    cx.check(len(n.regs) == len(spec), 'blocks')
    for i, (o, c, a) in enumerate(spec):
        cx.check(cx.same(n.read(base + o, c), m.read(base + o, c)), 'a reloaded map has the same contents')
        cx.check(n.regs[i].access == a and n.regs[i].offset == o and n.regs[i].count == c, 'a reloaded map has the same blocks')
    for k in ('ns', 'lid', 'mapid', 'time'):
        cx.check(cx.same(getattr(n, k), kw.get(k)), 'map attributes survive')
    cx.reach('round trip')


def without_data(cx):
    """a map saved without its data keeps its layout and is zero when reloaded"""
    mbmap = cx.mod(MBMAP)
    base = cx.int('base', 0, 65000)
    func = cx.choice('func', ['holding', 'input'])
    spec = [(o, c, cx.choice('acc%d' % i, ['r', 'rw'])) for i, (o, c) in enumerate(cx.p['spec'])]
    m = make(cx, spec, 'd', base, func)
    e = m.to_xml(no_data=True)
    for x in e.findall('regs'):
        cx.check(not x.text, 'no data is saved')
    n = mbmap.ModbusMap(1)
    if cx.choice('how', [0, 1]):
        n.from_xml('f.xml', Defs({'f.xml': ET.tostring(e)}))
    else:
        n.from_xml(element=e)
    cx.check(cx.same(n.base_addr, base) and n.func == m.func, 'base address and function')
    cx.check(len(n.regs) == len(spec), 'blocks')
    for i, (o, c, a) in enumerate(spec):
        cx.check(cx.same(n.read(base + o, c), b'\0' * (2 * c)), 'a map without data is zero')
        cx.check(n.regs[i].access == a and n.regs[i].offset == o and n.regs[i].count == c, 'a reloaded map has the same blocks')
    cx.check(cx.same(m.read(base + spec[0][0], spec[0][1]), b''.join([m.regs[0].data])), 'saving leaves the map as it is')
    cx.reach('no data')


def added(cx):
    """registers added one block after another: ascending, without overlap, from the base address on"""
    mbmap = cx.mod(MBMAP)
    base = cx.int('base', 0, 60000) if cx.p['n'] == 1 else 40000
    m = mbmap.ModbusMap(1, base_addr=base)
    nxt = 0
    have = set()
    for i in range(cx.p['n']):
        off = cx.int('off%d' % i, -2 if cx.p['by'] == 'addr' else 0, cx.p.get('maxoff', 7))
        cnt = cx.choice('cnt%d' % i, cx.p['counts'])
        if cx.p['by'] == 'addr':
            r, e = cx.raises(lambda: m.regs_add(addr=base + off, count=cnt), mbmap.ModbusMapError)
        else:
            r, e = cx.raises(lambda: m.regs_add(offset=off, count=cnt), mbmap.ModbusMapError)
        cx.check(cx.iff(off >= nxt, e is None), 'registers are added exactly in ascending order without overlap')
        if e is None:
            off = cx.fork(off)
            have |= set(range(off, off + cnt))
            nxt = off + cnt
        else:
            cx.reach('overlap')
    for i in range(0, nxt + 1):
        if cx.p['by'] == 'addr' or i >= 0:
            r, e = cx.raises(lambda: m.read(base + i, 1), mbmap.ModbusMapError)
            cx.check((e is None) == (i in have), 'exactly the added registers are defined')
            cx.check(e is not None or cx.same(r, b'\0\0'), 'added registers hold zeros')
    spans = []
    for i in sorted(have):
        if not spans or spans[-1][1] != i:
            spans.append([i, i])
        spans[-1][1] = i + 1
    for a, b in spans:
        d = cx.bytes('d%d' % a, 2 * (b - a))
        m.write(base + a, d)
        cx.check(cx.same(m.read(base + a, b - a), d), 'added registers can be written and read')
    cx.reach('added')


def compare(cx):
    """not_equal is true exactly when base, function, blocks, contents or access differ"""
    mbmap = cx.mod(MBMAP)
    A = [(o, c, cx.choice('a%d' % i, ['r', 'rw']), cx.bytes('da%d' % i, 2 * c)) for i, (o, c) in enumerate(cx.p['a'])]
    B = [(o, c, cx.choice('b%d' % i, ['r', 'rw']), cx.bytes('db%d' % i, 2 * c)) for i, (o, c) in enumerate(cx.p['b'])]
    fa, fb = cx.choice('fa', ['holding', 'input']), cx.choice('fb', ['holding', 'input'])
    ba, bb = cx.int('ba', 0, 65535), cx.int('bb', 0, 65535)
    ma = mbmap.ModbusMap(1, fa, ba)
    mb = mbmap.ModbusMap(1, fb, bb)
    for m, l in ((ma, A), (mb, B)):
        for o, c, a, d in l:
            m.regs.append(mbmap.ModbusMapRegs(o, c, d, a))
    eq = cx.all([ba == bb, fa == fb, len(A) == len(B)] +
                [cx.all([x[0] == y[0], x[1] == y[1], x[2] == y[2], x[1] == y[1] and cx.same(x[3], y[3])]) for x, y in zip(A, B)])
    r1 = ma.not_equal(mb)
    r2 = mb.not_equal(ma)
    cx.check(cx.iff(eq, not r1), 'a difference is reported exactly when there is one')
    cx.check(cx.iff(eq, not r2), 'comparison is symmetric')
    cx.reach('differ' if r1 else 'equal')


def hexfile(cx):
    mbmap = cx.mod(MBMAP)
    words = cx.p['words']
    lines = []
    exp = b''
    k = 0
    for w in words:
        if w is None:
            lines.append('# comment 12 34')
            continue
        t = []
        for _ in range(w):
            b = cx.bytes('b%d' % k, 1)
            k += 1
            t.append(b.hex())
            exp += b
        lines.append(' '.join(t))
    root = cx.file_tree([('m.hex', True, '\n'.join(lines) + '\n')])
    m = mbmap.ModbusMap(1, base_addr=cx.int('base', 0, 65000))
    m.from_hex(root + '/m.hex')
    cx.check(cx.same(m.read(m.base_addr, len(exp) // 2), exp), 'a hex file loads its bytes in order')
    cx.reach('hexfile')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for ty in INTS:
        for tx in ('dec', 'hex'):
            out.append(('integer', {'type': ty, 'text': tx}))
    for ty in ('f32', 'f64'):
        out.append(('floats', {'type': ty}))
    for ty, n in (('s16', 1), ('u16', 1), ('s32', 2), ('u32', 2), ('s64', 4), ('u64', 4), ('f32', 2), ('f64', 4), ('string', 3), ('hexstr', 3)):
        out.append(('default_value', {'type': ty, 'n': n}))
    for n in range(0, 13 if t else 7):
        out.append(('string', {'n': n, 'maxlen': 8 if t else 4}))
    for n in (0, 2, 4, 5, 6, 7, 8, 10, 12, 16) + ((20, 24, 32) if t else ()):
        out.append(('hexstr', {'n': n, 'maxlen': 9 if t else 4}))
    out.append(('hexstr', {'n': 8, 'maxlen': 3, 'spaces': 2}))
    out.append(('hexstr', {'n': 8, 'maxlen': 3, 'spaces': 4}))
    out.append(('badhex', {}))
    for kinds in (['u16', 'u16', 'u16'], ['u32', 'hexstr', 'u16'], ['string', 'u16', 'u64'], ['hexstr', 'string', 'u32']):
        for offsets in ([0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1]):
            out.append(('layout', {'kinds': kinds, 'offsets': offsets}))
        out.append(('layout', {'kinds': kinds, 'offsets': [1, 1, 1], 'maxoff': 8 if t else 6}))
        if t:
            out.append(('layout', {'kinds': kinds + ['u16'], 'offsets': [1, 1, 0, 1]}))
    out.append(('header', {}))
    for spec in ([], [(0, 1)], [(0, 3)], [(1, 2), (4, 1)], [(0, 1), (2, 2), (6, 1)]):
        for how in ('text', 'element', 'parent', 'file'):
            out.append(('round_trip', {'spec': spec, 'how': how, 'meta': len(spec) == 1}))
    S = [[], [(0, 1)], [(0, 2)], [(1, 2)], [(0, 1), (2, 1)], [(0, 1), (3, 1)]]
    for i, a in enumerate(S):
        for b in S:
            out.append(('compare', {'a': a, 'b': b}))
    out.append(('compare', {'a': [(0, 3), (5, 2), (9, 1)], 'b': [(0, 3), (5, 2), (9, 1)]}))
    for w in ([2], [2, 4], [None, 1, 1], [4, None, 2], [16, 16]):
        out.append(('hexfile', {'words': w}))
    for n in (16, 17, 33, 130):
        out.append(('string', {'n': n, 'lens': [None, 0, (n + 1) // 2, (n + 1) // 2 + 1, 100, 130]}))
    for n in (64, 160, 520):
        out.append(('hexstr', {'n': n, 'lens': [None, 0, n // 4 - 1, n // 4, n // 4 + 3, 140]}))
    out.append(('hexstr', {'n': 64, 'lens': [None, 16, 20], 'spaces': 4}))
    many = ['u16', 'u32', 'string', 'hexstr', 'u64', 'u16'] * 2
    out.append(('layout', {'kinds': many, 'offsets': [0] * 12}))
    out.append(('layout', {'kinds': many, 'offsets': [0] * 10 + [1, 0], 'maxoff': 30}))
    for how in ('text', 'file'):
        out.append(('round_trip', {'spec': [(i * 4, 1 + i % 3) for i in range(4)] + [(100 + 20 * i, 12) for i in range(3)], 'how': how, 'acc': 1}))
        out.append(('round_trip', {'spec': [(i * 3, 2) for i in range(12)], 'how': how, 'acc': 1}))
    for w in ([16] * 9, [1] * 20, [None] + [8, None] * 12, [64, 64], [260]):
        out.append(('hexfile', {'words': w}))
    for by in ('addr', 'offset'):
        for n in (1, 2, 3):
            out.append(('added', {'by': by, 'n': n, 'counts': [1, 2] if n > 1 else [1, 3], 'maxoff': 7 if n < 3 else 5}))
    for sp in ([[0, 1]], [[2, 3]], [[0, 2], [3, 1], [7, 3]]):
        out.append(('without_data', {'spec': sp}))
    return out
