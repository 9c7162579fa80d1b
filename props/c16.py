"""C16 writing a model writes exactly the modified points, each to its place"""
from props.lib import *

META = {
    'bounds': {'quick': 'models of up to 9 points (every point type, pads and scale factors in between) in a fixed block and up to 3 repeating blocks; every '
                        'subset of up to 8 points modified; all values of the integer types, any float32, sampled strings and addresses (contents cannot '
                        'influence addressing); all initial register contents; up to three rounds of assign, write and read',
               'thorough': 'as quick with every subset of up to 10 points, and four rounds'},
    'outside': 'a read between assigning and writing a point; None as a value',
    'reach': ['written', 'nothing to write', 'all points', 'several requests', 'single point', 'second round', 'scaled'],
}
STR = ['AbC', 'x' * 6]


def new_value(cx, e, name, impl=False):
    """(value to assign, expected registers)"""
    t = e['type']
    if t == 'string':
        s = cx.choice('s_' + name, STR)[:2 * e['len']]
        return s, s.encode('latin-1') + b'\0' * (2 * e['len'] - len(s))
    if t == 'float32':
        f = cx.f32('v_' + name)
        import struct
        return f, struct.pack('>f', f)
    if t == 'ipv6addr':
        b = bytes([0x10 + i for i in range(16)])
        return decode(t, b), b
    if t == 'eui48':
        b = bytes([0xa0 + i for i in range(8)])
        return decode(t, b), b'\0\0' + b[2:]
    lo, hi = int_range(t)
    v = cx.int('v_' + name, lo, hi)
    if impl:
        cx.assume(v != int.from_bytes(SENTINEL[t], 'big', signed=INT_TYPES[t][1]))
    return v, encode(t, v)


def setup(cx, sh, n, base, sfvals=None, read=False):
    use_defs(cx, {sh.mid: sh.xml()})
    mem = regs(cx, 'pre', base - 2, 2)
    for bi, e, a in sh.places(base, n):
        if e['type'] == 'sunssf':
            mem.update(regmem(a, be16((sfvals or {}).get(e['id'], 0))))
        elif e['type'] in ('string', 'ipv6addr', 'eui48'):
            mem.update(regmem(a, implemented(cx, e['type'], '', e['len'])))
        else:
            nm = 'init_%s_%d' % (e['id'], bi)
            mem.update(regmem(a, implemented(cx, e['type'], nm) if read else cx.bytes(nm, 2 * e['len'])))
    mem.update(regs(cx, 'post', base + sh.total(n), 2))
    d = client_device(cx, mem)
    m = load_model(cx, sh.mid, base, sh.total(n), d)
    return d, m, mem


def written(log):
    """[(address, register bytes)] of the write log"""
    out = []
    for k, a, data in log:
        for i in range(len(data) // 2):
            out.append((a + i, data[2 * i:2 * i + 2]))
    return out


def check_write(cx, d, start, mem0, exp):
    """the writes since log position start are exactly the registers exp {address: bytes}"""
    log = d.modbus_device.log[start:]
    cx.check(all(l[0] == 'w' for l in log), 'only writes')
    w = written(log)
    cx.check(sorted(a for a, r in w) == sorted(exp), 'exactly the registers of the modified points are written, once')
    want = dict(mem0)
    want.update(exp)
    mem = d.modbus_device.mem
    cx.check(sorted(mem) == sorted(want), 'no register appears or disappears')
    cx.check(cx.all([cx.same(mem[a], want[a]) for a in sorted(want)]), 'modified points hold their new value and every other register is untouched')


def pick(cx, sh, n, base, rnd, limit, skip=()):
    """any subset of the writable points"""
    pts = [(bi, e, a) for bi, e, a in sh.places(base, n) if e['type'] not in ('pad', 'sunssf')]
    free = [x for x in pts if '%s.%d' % (x[1]['id'], x[0]) not in skip]
    rest = free[limit:]
    sel = [x for x in free[:limit] if cx.choice('dirty_%s_%d_%d' % (x[1]['id'], x[0], rnd), [0, 1])]
    if rest and cx.choice('rest_%d' % rnd, [0, 1]):
        sel = sel + rest
    return pts, sel


def subsets(cx):
    n, base = cx.p.get('n', 0), 500
    sh = Shape(cx.p['fixed'], cx.p.get('rep'), order=cx.p.get('order'))
    d, m, mem = setup(cx, sh, n, base, None, cx.p.get('read') or cx.p.get('reread'))
    if cx.p.get('read'):
        m.read_points()
    for rnd in range(cx.p.get('rounds', 1)):
        if rnd:
            cx.reach('second round')
            if cx.p.get('reread'):
                m.read_points()
        pts, sel = pick(cx, sh, n, base, rnd, cx.p.get('limit', 8) if rnd == 0 else 2)
        mem0 = dict(mem)
        exp = {}
        for bi, e, a in sel if not cx.p.get('reverse') else sel[::-1]:
            v, data = new_value(cx, e, '%s_%d_%d' % (e['id'], bi, rnd), cx.p.get('reread'))
            the_point(m, bi, e).value = v
            exp.update(regmem(a, data))
        for bi, e, a in pts:
            p = the_point(m, bi, e)
            cx.check(bool(p.dirty) == any(x[0] == bi and x[1] is e for x in sel), 'exactly the assigned points are marked modified')
        start = len(d.modbus_device.log)
        m.write_points()
        check_write(cx, d, start, mem0, exp)
        if not sel:
            cx.check(len(d.modbus_device.log) == start, 'nothing is sent when nothing was modified')
            cx.reach('nothing to write')
        else:
            cx.reach('written')
        if len(sel) == len(pts):
            cx.reach('all points')
        if len(d.modbus_device.log) > start + 1:
            cx.reach('several requests')
        cx.check(not any(the_point(m, bi, e).dirty for bi, e, a in pts), 'no point is marked modified after the write')
        start = len(d.modbus_device.log)
        m.write_points()
        cx.check(len(d.modbus_device.log) == start, 'a second write sends nothing')


def single(cx):
    """Point.write() writes that point only; the others stay modified and are written later"""
    n, base = cx.p.get('n', 0), 500
    sh = Shape(cx.p['fixed'], cx.p.get('rep'), order=cx.p.get('order'))
    d, m, mem = setup(cx, sh, n, base)
    pts, sel = pick(cx, sh, n, base, 0, cx.p.get('limit', 3))
    exp = {}
    for bi, e, a in sel:
        v, data = new_value(cx, e, '%s_%d' % (e['id'], bi))
        the_point(m, bi, e).value = v
        exp[(bi, e['id'])] = regmem(a, data)
    if not sel:
        return
    bi, e, a = cx.choice('which', sel)
    mem0 = dict(mem)
    start = len(d.modbus_device.log)
    the_point(m, bi, e).write()
    check_write(cx, d, start, mem0, exp.pop((bi, e['id'])))
    for b2, e2, a2 in pts:
        cx.check(bool(the_point(m, b2, e2).dirty) == ((b2, e2['id']) in exp), 'writing one point changes no other point')
    cx.reach('single point')
    mem0 = dict(mem)
    start = len(d.modbus_device.log)
    m.write_points()
    rest = {}
    for r in exp.values():
        rest.update(r)
    check_write(cx, d, start, mem0, rest)
    cx.check(not any(the_point(m, b2, e2).dirty for b2, e2, a2 in pts), 'no point is marked modified after the write')


def scaled(cx):
    """points with scale factors: the raw value selected by the assignment is what is written"""
    n, base = cx.p.get('n', 0), 500
    sh = Shape(cx.p['fixed'], cx.p.get('rep'), order=cx.p.get('order'))
    d, m, mem = setup(cx, sh, n, base, cx.p['sf'])
    for bi, e, a in sh.places(base, n):
        if e['type'] not in ('pad', 'sunssf'):
            mem.update(regmem(a, encode(e['type'], 7)))
    m.read_points()
    pts, sel = pick(cx, sh, n, base, 0, 8)
    exp = {}
    mem0 = dict(mem)
    for bi, e, a in sel:
        s = e.get('sf')
        s = 0 if s is None else cx.p['sf'].get(s, 0) if not s.lstrip('-').isdigit() else int(s)
        k = cx.choice('k_%s_%d' % (e['id'], bi), [12, 1, 100])
        the_point(m, bi, e).value = k * 10 ** s if s >= 0 else k / 10.0 ** -s
        exp.update(regmem(a, encode(e['type'], k)))
    start = len(d.modbus_device.log)
    m.write_points()
    check_write(cx, d, start, mem0, exp)
    cx.check(not any(the_point(m, bi, e).dirty for bi, e, a in pts), 'no point is marked modified after the write')
    if sel:
        cx.reach('scaled')


MIX = ['uint16', 'int32', 'pad', 'acc64', 'sunssf', 'float32', {'type': 'string', 'len': 3}, 'enum16', 'bitfield32']
MIX2 = ['ipaddr', 'eui48', 'count', 'sunssf', 'int64', 'ipv6addr', 'int16', 'pad']
REP = ['uint16', 'pad', 'int32', 'sunssf']


def cases(tier):
    th = tier == 'thorough'
    out = []
    for read in (0, 1):
        out.append(('subsets', {'fixed': MIX, 'read': read, 'limit': 7}))
        out.append(('subsets', {'fixed': MIX2, 'read': read}))
        out.append(('subsets', {'fixed': ['uint16'] * 8, 'read': read, 'reverse': 1}))
        out.append(('subsets', {'fixed': ['uint16', 'int32'], 'rep': REP, 'n': 3, 'read': read}))
        out.append(('subsets', {'fixed': ['pad', 'uint32'], 'rep': ['uint16', 'acc32'], 'n': 3, 'read': read, 'reverse': 1}))
    for rr in (0, 1):
        out.append(('subsets', {'fixed': ['uint16', 'int32'], 'rep': ['enum16', 'pad', 'int16'], 'n': 2, 'rounds': 2, 'limit': 5, 'reread': rr}))
        out.append(('subsets', {'fixed': ['uint16', 'int32', 'acc16'], 'rounds': 3, 'limit': 3, 'reread': rr, 'read': 1}))
    out.append(('subsets', {'fixed': ['uint16'] * 130, 'limit': 3}))
    out.append(('subsets', {'fixed': ['uint16'], 'rep': ['uint32', 'int16'], 'n': 45, 'limit': 4}))
    for f, r, n in ((['uint16', 'int32', 'pad', 'float32'], None, 0), (['uint16'], ['acc16', 'int32'], 2), (MIX2, ['pad', 'uint16'], 1)):
        out.append(('single', {'fixed': f, 'rep': r, 'n': n, 'limit': 5}))
    p = lambda t, s: {'type': t, 'sf': s}
    sfp = lambda i: {'type': 'sunssf', 'id': i}
    for a, b in ((-2, 1), (0, -3), (2, 0), (-1, -1)):
        out.append(('scaled', {'fixed': [p('uint16', 'A'), p('int32', 'A'), sfp('A'), 'uint16'], 'sf': {'A': a}}))
        out.append(('scaled', {'fixed': [p('uint16', 'A'), sfp('A')], 'rep': [sfp('B'), p('int16', 'A'), p('uint32', 'B'), p('uint16', '-1')], 'n': 1,
                               'sf': {'A': a, 'B': b}}))
    # definitions that list their points in another order than their offsets
    for o in ('rev', 'mixed'):
        out.append(('subsets', {'fixed': MIX, 'limit': 6, 'order': o}))
        out.append(('subsets', {'fixed': ['uint16', 'int32'], 'rep': REP, 'n': 2, 'read': 1, 'order': o}))
        out.append(('subsets', {'fixed': ['uint16'] * 130, 'limit': 3, 'order': o}))
        out.append(('single', {'fixed': ['uint16', 'int32', 'pad', 'float32'], 'order': o}))
        out.append(('scaled', {'fixed': [p('uint16', 'A'), p('int32', 'A'), sfp('A'), 'uint16'], 'sf': {'A': -2}, 'order': o}))
    for ks in ([{'type': 'string', 'len': 60}, {'type': 'string', 'len': 20}] * 2, [{'type': 'string', 'len': 60}] * 3, ['float32'] * 62):
        out.append(('subsets', {'fixed': ks + ['uint16', 'int32'], 'limit': 4 if len(ks) < 10 else 2}))
    # the same point ids in both blocks
    q = lambda t, i: {'type': t, 'id': i}
    same = {'fixed': [q('uint16', 'X'), q('int32', 'Y'), 'pad', q('acc16', 'Z')], 'rep': [q('int32', 'Y'), q('uint16', 'X'), q('sunssf', 'S')], 'n': 2}
    out.append(('subsets', dict(same, limit=6, read=1)))
    out.append(('subsets', dict(same, limit=4, rounds=2)))
    out.append(('single', dict(same, limit=5)))
    if th:
        out.append(('subsets', {'fixed': ['uint16', 'acc16', 'int16', 'pad', 'int32'] * 2 + ['enum16', 'uint32'], 'limit': 10}))
        out.append(('subsets', {'fixed': ['uint16', 'int32', 'acc16'], 'rep': ['uint16', 'pad'], 'n': 2, 'rounds': 4, 'limit': 5, 'read': 1, 'reread': 1}))
        out.append(('subsets', {'fixed': ['uint16', 'int32', 'acc16'], 'rep': ['uint16', 'pad'], 'n': 5, 'rounds': 2, 'limit': 8}))
    return out
