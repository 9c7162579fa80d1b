"""C14 reading a model fetches every register once and decodes each point's own"""
from props.lib import *

META = {
    'bounds': {'quick': 'models of 1..300 registers and up to 60 repeating blocks (concrete shapes with symbolic register contents); symbolic layouts of up to 4 points '
                        'of every length 1..125 at any address 0..60000; responses of any wrong length at any request; 2 and 3 models of one kind in a device, with the same point ids in both blocks',
               'thorough': 'as quick with models of up to 700 registers, symbolic layouts of 8 points'},
    'outside': 'points longer than 125 registers; several wrong responses that add up to the right length; definitions with gaps or overlapping points',
    'reach': ['read', 'several requests', 'symbolic layout', 'wrong length', 'several models'],
}
LIMIT = 125


def build(cx, fixed, rep, n, base, tag='R'):
    """fixed/rep: [(type, len)]"""
    def xml(spec, tag):
        pts, off = [], 0
        for i, (t, ln) in enumerate(spec):
            pts.append(point(tag + str(i), t, off, ln if t == 'string' else None))
            off = off + ln
        return pts, off
    fp, fl = xml(fixed, 'F')
    blocks = [block(fp, fl)]
    rl = 0
    if rep:
        rp, rl = xml(rep, tag)
        blocks.append(block(rp, rl, 'repeating'))
    use_defs(cx, {64100: model_xml(64100, fl + rl, blocks)})
    return fl + n * rl


def contents(cx, spec, tag):
    """implemented register contents for a block: one symbolic byte per integer register"""
    out = b''
    for i, (t, ln) in enumerate(spec):
        if t == 'string':
            s = b''
            for k in range(ln):
                s = s + bytes([65 + (k + i) % 26, 97 + k % 26])
            out = out + s
        elif t == 'pad':
            out = out + b'\x80\0'
        else:
            for k in range(ln):
                out = out + b'\x12' + cx.bytes('%s_%d_%d' % (tag, i, k), 1)
    return out


def check_reads(cx, reads, addr, total, points, complete):
    nxt = addr
    for a, c in reads:
        cx.check(a == nxt, 'every register is fetched once, in ascending order')
        cx.check(cx.all([c >= 1, c <= LIMIT]), 'no request is longer than 125 registers')
        nxt = a + c
    for p, ln in points:
        cx.check(cx.any([cx.all([a <= p, p + ln <= a + c]) for a, c in reads] + ([] if complete else [p >= nxt])), 'no point is split across requests')
    if complete:
        cx.check(nxt == addr + total, 'every register is fetched')


def expected(t, raw):
    return raw.decode('latin-1') if t == 'string' else decode(t, raw)


def read(cx):
    base = cx.p.get('base', 40072)
    fixed, rep, n = cx.p['fixed'], cx.p.get('rep'), cx.p.get('n', 0)
    fixed = [tuple(x) for x in fixed]
    rep = [tuple(x) for x in rep or []]
    total = build(cx, fixed, rep, n, base)
    data = contents(cx, fixed, 'f')
    for i in range(n):
        data = data + contents(cx, rep, 'r%d' % i)
    mem = regmem(base, data)
    d = client_device(cx, mem)
    m = load_model(cx, 64100, base, total, d)
    m.read_points()
    reads = [(a, c) for k, a, c in d.modbus_device.log]
    pts = []
    a = base
    for bi, b in enumerate(m.blocks):
        for i, (t, ln) in enumerate(fixed if bi == 0 else rep):
            if t != 'pad':
                pid = ('F' if bi == 0 else 'R') + str(i)
                p = (b.points_sf if t == 'sunssf' else b.points)[pid]
                raw = data[2 * (a - base):2 * (a - base + ln)]
                cx.check(p.value_base is not None and cx.same(p.value_base, expected(t, raw)), 'every point is set from the registers at its own address')
                pts.append((a, ln))
            a += ln
    check_reads(cx, reads, base, total, pts, True)
    cx.check(len(d.modbus_device.log) == len(reads), 'reads only')
    cx.reach('read')
    if len(reads) > 1:
        cx.reach('several requests')


def several(cx):
    """several models of one kind, of different lengths at different addresses, points of both blocks with the same ids"""
    fixed = [tuple(x) for x in cx.p['fixed']]
    rep = [tuple(x) for x in cx.p.get('rep') or []]
    ns = [cx.choice('n%d' % i, cx.p['ns']) for i in range(cx.p['models'])] if rep else [0] * cx.p['models']
    mem, where, a = {}, [], 200
    for i, n in enumerate(ns):
        total = build(cx, fixed, rep, n, a, 'F')
        data = contents(cx, fixed, 'm%df' % i)
        for k in range(n):
            data = data + contents(cx, rep, 'm%dr%d' % (i, k))
        mem.update(regmem(a, data))
        where.append((a, total, n, data))
        a += total + cx.p.get('gap', 2)
    d = client_device(cx, mem)
    ms = []
    for base, total, n, data in where:
        ms.append(load_model(cx, 64100, base, total, d))
    for i in [0] + list(range(len(ms)))[::-1]:
        base, total, n, data = where[i]
        start = len(d.modbus_device.log)
        ms[i].read_points()
        reads = [(b, c) for k, b, c in d.modbus_device.log[start:]]
        pts = []
        b = base
        for bi, bl in enumerate(ms[i].blocks):
            for k, (t, ln) in enumerate(fixed if bi == 0 else rep):
                if t != 'pad':
                    p = (bl.points_sf if t == 'sunssf' else bl.points)['F%d' % k]
                    raw = data[2 * (b - base):2 * (b - base + ln)]
                    cx.check(p.value_base is not None and cx.same(p.value_base, expected(t, raw)), 'every point is set from the registers at its own address')
                    pts.append((b, ln))
                b += ln
        check_reads(cx, reads, base, total, pts, True)
    cx.reach('several models')


def plan(cx):
    """requests made for symbolic layouts (the device answers nothing)"""
    client = cx.mod('sunspec.core.client')
    k = cx.p['k']
    spec = []
    for i in range(k):
        if cx.p['kinds'][i % len(cx.p['kinds'])] == 's':
            spec.append(('string', cx.int('len%d' % i, 1, cx.p.get('max', LIMIT))))
        else:
            t = cx.p['kinds'][i % len(cx.p['kinds'])]
            spec.append((t, TYPE_LEN[t]))
    rep = [spec[-1]] if cx.p.get('rep') else None
    fixed = spec[:-1] if rep else spec
    base = cx.int('base', 0, 60000)
    n = cx.p.get('rep', 0)
    total = build(cx, fixed, rep, n, base)
    m = client.ClientModel(None, 64100, base, total)
    reads = []

    class Dev(object):
        def read(self, addr, count):
            reads.append((addr, count))
            return b''
    m.device = Dev()
    m.load()
    r, e = cx.raises(m.read_points, client.SunSpecClientError)
    cx.check(e is not None, 'a response of the wrong length is an error')
    pts = []
    a = base
    for t, ln in fixed + (rep or []) * n:
        pts.append((a, ln))
        a = a + ln
    check_reads(cx, reads, base, total, pts, False)
    for b in m.blocks:
        for p in b.points_list:
            cx.check(p.value_base is None, 'a response of the wrong length leaves every point unchanged')
    cx.reach('symbolic layout')


def wrong(cx):
    """a response of the wrong length: error, no point changed; the next read works"""
    client = cx.mod('sunspec.core.client')
    base = 100
    fixed = [tuple(x) for x in cx.p['fixed']]
    rep = [tuple(x) for x in cx.p.get('rep') or []]
    n = cx.p.get('n', 0)
    total = build(cx, fixed, rep, n, base)
    data = contents(cx, fixed, 'f')
    for i in range(n):
        data = data + contents(cx, rep, 'r%d' % i)
    mem = regmem(base, data)
    d = client_device(cx, mem)
    m = load_model(cx, 64100, base, total, d)
    first = cx.choice('first', [0, 1])
    if first:
        m.read_points()
    allp = [p for b in m.blocks for p in list(b.points.values()) + list(b.points_sf.values())]
    before = [(p.value_base, p.value_sf) for p in allp]
    cx.check(all((p.value_base is not None) == bool(first) for p in allp), 'points are read')
    nreads = len(d.modbus_device.log) if first else cx.p['reads']
    at = cx.choice('at', list(range(nreads)))
    delta = cx.choice('delta', [-3, -2, -1, 1, 2, 3, 'none', 'empty'])
    new = dict((a, b'\x13\x14') for a in mem)
    old = dict(mem)
    mem.update(new)
    start = len(d.modbus_device.log)

    def fault(kind, i):
        if i - start != at:
            return None
        k, a, c = d.modbus_device.log[i]
        r = b'\x13\x14' * c
        if delta == 'none' or delta == 'empty':
            return b''
        return r[:delta] if delta < 0 else r + b'\x13' * delta
    d.modbus_device.fault = fault
    r, e = cx.raises(m.read_points, client.SunSpecClientError)
    cx.check(e is not None, 'a response of the wrong length is an error')
    after = [(p.value_base, p.value_sf) for p in allp]
    cx.check(cx.same(after, before), 'a response of the wrong length leaves every point unchanged')
    d.modbus_device.fault = None
    mem.update(old)
    m.read_points()
    cx.check(all(p.value_base is not None for p in allp), 'the next read works')
    cx.reach('wrong length')


def cases(tier):
    th = tier == 'thorough'
    u, i32, s8, s25, sf, p = ['uint16', 1], ['int32', 2], ['string', 8], ['string', 25], ['sunssf', 1], ['pad', 1]
    u64 = ['uint64', 4]
    out = []
    for k in (1, 2, 3, 124, 125, 126, 127, 249, 250, 251, 300):
        out.append(('read', {'fixed': [u] * k}))
    for k in (62, 63, 64, 125):
        out.append(('read', {'fixed': [i32] * k}))
        out.append(('read', {'fixed': [u] + [i32] * k}))
    for pre in (120, 121, 122, 123, 124, 125):
        out.append(('read', {'fixed': [u] * pre + [u64] + [s25, i32, sf, p]}))
        out.append(('read', {'fixed': [u] * (pre - 1) + [p] + [u64, sf, u]}))
        out.append(('read', {'fixed': [u] * (pre - 100), 'rep': [i32, p, s25, u64], 'n': 8}))
    for n in (0, 1, 2, 40, 41, 42, 60):
        out.append(('read', {'fixed': [u, sf], 'rep': [u, i32], 'n': n, 'base': n}))
        out.append(('read', {'fixed': [s8, p], 'rep': [sf, i32, p], 'n': n}))
    out.append(('read', {'fixed': [['string', 125]] * 2}))
    out.append(('read', {'fixed': [u, ['string', 125], u, ['string', 124], u]}))
    for kinds in (['s'], ['s', 'uint16'], ['int32', 's'], ['s', 's', 'uint64']):
        for k in (1, 2, 3):
            out.append(('plan', {'k': k, 'kinds': kinds}))
        out.append(('plan', {'k': 2, 'kinds': kinds, 'rep': 2}))
    for f in ({'fixed': [u, i32, sf], 'reads': 1}, {'fixed': [u] * 130, 'reads': 2}, {'fixed': [u, sf], 'rep': [u, i32], 'n': 3, 'reads': 1},
              {'fixed': [s25] * 11, 'reads': 3}):
        out.append(('wrong', f))
    for mm in (2, 3):
        out.append(('several', {'fixed': [u, i32, sf], 'rep': [u, i32], 'ns': [0, 1, 2], 'models': mm}))
        out.append(('several', {'fixed': [u] * 130, 'models': mm}))
        out.append(('several', {'fixed': [['string', 100], u, ['string', 60], i32], 'rep': [['string', 50], u], 'ns': [0, 1, 3], 'models': mm, 'gap': 0}))
    if th:
        out.append(('plan', {'k': 6, 'kinds': ['s'], 'max': 60}))
        for k in (375, 376, 500, 700):
            out.append(('read', {'fixed': [u] * k}))
            out.append(('read', {'fixed': [u], 'rep': [u, i32, sf], 'n': k // 4}))
        for kinds in (['s'], ['s', 'uint16'], ['int32', 's']):
            for k in (4, 5, 6):
                out.append(('plan', {'k': k, 'kinds': kinds}))
            out.append(('plan', {'k': 4, 'kinds': kinds, 'rep': 3}))
        out.append(('plan', {'k': 8, 'kinds': ['s'], 'max': 60}))
    return out
