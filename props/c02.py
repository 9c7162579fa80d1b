"""C02 unimplemented sentinels read as None, and only those"""
from props.lib import *

META = {
    'bounds': {'quick': 'every point type in fixed and repeating blocks, with and without a scale-factor point; every register content; two successive reads with '
                        'every pair of contents (value, scale factor)',
               'thorough': 'as quick with three successive reads and blocks of two points sharing one scale factor'},
    'outside': 'scale factors outside -10..10 other than the sentinel; strings whose first register is zero but later ones are not',
    'reach': ['unimplemented', 'implemented', 'sf unimplemented', 'sf implemented', 'second read'],
}


def build(cx, t, where, sf, plen=None):
    n = plen or TYPE_LEN[t]
    pts = [point('P', t, 0, n if t == 'string' else None, 'SF' if sf else None), point('X', 'uint16', n)]
    blen = n + 1
    fixed = [point('F', 'uint16', 0)]
    if sf == 'local':
        pts.append(point('SF', 'sunssf', n + 1))
        blen += 1
    elif sf == 'fixed' and where == 'repeating':
        fixed.append(point('SF', 'sunssf', 1))
    elif sf:
        pts.append(point('SF', 'sunssf', n + 1))
        blen += 1
    if where == 'fixed':
        blocks, total, off, sfo = [block(pts, blen)], blen, 0, n + 1
    else:
        fl = len(fixed)
        blocks = [block(fixed, fl), block(pts, blen, 'repeating')]
        total, off = fl + 2 * blen, fl + blen
        sfo = off + n + 1 if sf == 'local' else 1
    use_defs(cx, {64100: model_xml(64100, total, blocks)})
    mem = regmem(100, b'\1\1' * total)
    d = client_device(cx, mem)
    m = load_model(cx, 64100, 100, total, d)
    blk = m.blocks[0 if where == 'fixed' else 2]
    if sf:
        for b in m.blocks:
            for p in b.points_sf.values():
                mem[int(p.addr)] = b'\0\1'
    return d, m, blk, mem, 100 + off, 100 + sfo, n


def is_none(v):
    return v is None


def check_point(cx, t, p, raw, sfraw, n):
    """p was read from raw; its scale factor register holds sfraw (None: not scaled)"""
    if t == 'string':
        if bool(cx.all([b == 0 for b in raw])):
            cx.check(p.value is None, 'an unimplemented point reads as None')
            cx.reach('unimplemented')
        elif bool(raw[0] != 0):
            cx.check(p.value is not None, 'an implemented point has a value')
            cx.reach('implemented')
        return
    if t == 'float32':
        v = decode(t, raw)
        un = v != v
    else:
        un = raw == SENTINEL[t]
    un = bool(un)
    if un:
        cx.check(p.value is None and p.value_base is None, 'an unimplemented point reads as None')
        cx.check(p.value_sf is None or p.value is None, 'an unimplemented point has no value')
        cx.reach('unimplemented')
        return
    if t in INT_TYPES or t == 'float32':
        cx.check(p.value_base is not None and p.value is not None, 'an implemented point has a value')
        cx.reach('implemented')
        want = decode(t, raw)
        cx.check(cx.same(p.value_base, want), 'raw value')
        if sfraw is not None:
            s = bool(sfraw == SENTINEL['sunssf'])
            cx.check((p.value_sf is None) == s, 'scale factor present exactly when implemented')
            if s:
                cx.check(cx.same(p.value, want), 'a point whose scale factor is unimplemented is unscaled')
                cx.reach('sf unimplemented')
            else:
                cx.check(cx.same(p.value_sf, decode('sunssf', sfraw)), 'scale factor value')
                cx.reach('sf implemented')
        else:
            cx.check(cx.same(p.value, want), 'an unscaled point has its raw value')


def small_sf(cx, name, limit=10):
    """-limit..limit or the sentinel"""
    s = cx.bytes(name, 2)
    v = decode('sunssf', s)
    cx.assume(cx.any([cx.all([v >= -limit, v <= limit]), v == -32768]))
    return s


def reads(cx):
    t = cx.p['type']
    sf = cx.p.get('sf')
    d, m, blk, mem, addr, sfaddr, n = build(cx, t, cx.p['where'], sf, cx.p.get('len'))
    for k in range(cx.p['n']):
        raw = cx.bytes('raw%d' % k, 2 * n)
        mem.update(regmem(addr, raw))
        sfraw = None
        if sf:
            sfraw = small_sf(cx, 'sf%d' % k, cx.p.get('limit', 10))
            mem[sfaddr] = sfraw
        m.read_points()
        p = (blk.points_sf if t == 'sunssf' else blk.points)['P']
        if t == 'sunssf':
            cx.check((p.value_base is None) == bool(raw == SENTINEL[t]), 'a scale factor is None exactly when not implemented')
            cx.reach('unimplemented' if p.value_base is None else 'implemented')
        else:
            check_point(cx, t, p, raw, sfraw, n)
        cx.check(cx.same(blk.points['X'].value, 0x101), 'other points are unaffected')
        if k:
            cx.reach('second read')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for t in TYPE_LEN:
        if t == 'pad':
            continue
        for w in ('fixed', 'repeating'):
            out.append(('reads', {'type': t, 'where': w, 'n': 1}))
            if t not in ('ipv6addr', 'eui48') or th:
                out.append(('reads', {'type': t, 'where': w, 'n': 2}))
            if th:
                out.append(('reads', {'type': t, 'where': w, 'n': 3}))
    for n in (1, 2, 3, 4, 8):
        out.append(('reads', {'type': 'string', 'len': n, 'where': 'fixed', 'n': 1}))
        if n < 4:
            out.append(('reads', {'type': 'string', 'len': n, 'where': 'repeating', 'n': 2}))
    for t in SCALABLE:
        for w, s in (('fixed', 'local'), ('repeating', 'local'), ('repeating', 'fixed')):
            out.append(('reads', {'type': t, 'where': w, 'sf': s, 'n': 1}))
            out.append(('reads', {'type': t, 'where': w, 'sf': s, 'n': 2, 'limit': 10 if th else 1}))
    return out
