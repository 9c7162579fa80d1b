"""C03 scaled values are raw times 10^sf, and setting picks the nearest raw"""
from fractions import Fraction
from props.lib import *

META = {
    'bounds': {'quick': 'every scalable integer type, every scale factor -10..10 from the definition, a point of the block or of the fixed block; every raw value (64-bit types with a scale factor other than 0: '
                        'up to 2^50 in magnitude); assigned values k/8 for every k with |k| <= 2^40, as floats, integers and integer text (without scale factor: every integer to 2^64 in magnitude); scale factors that change between reads; values are compared with the exact '
                        'rational within a relative error of 2^-50',
               'thorough': 'as quick with a finer grid (k/1024) and values assigned twice'},
    'outside': 'rounding of exact ties; scaled raw values of 64-bit types above 2^50; non-integer values assigned with scale factor 0',
    'reach': ['scaled', 'unscaled', 'set', 'set back', 'changing'],
}


def build(cx, t, where, n):
    """a point P of type t scaled by ('const', 'local', 'fixed')"""
    sf = cx.choice('sf', cx.p['sfs'])
    how = where
    ref = str(sf) if how == 'const' else 'SF'
    ln = TYPE_LEN[t]
    pts = [point('P', t, 0, sf=None if how == 'none' else ref)]
    blen = ln
    if how == 'local':
        pts.append(point('SF', 'sunssf', ln))
        blen += 1
    if how == 'fixed':
        blocks = [block([point('SF', 'sunssf', 0)], 1), block(pts, blen, 'repeating')]
        total, off = 1 + blen, 1
    else:
        blocks, total, off = [block(pts, blen)], blen, 0
    use_defs(cx, {64100: model_xml(64100, total, blocks)})
    mem = {}
    d = client_device(cx, mem)
    m = load_model(cx, 64100, 100, total, d)
    if how == 'fixed':
        mem[100] = be16(sf & 0xffff)
    elif how == 'local':
        mem[100 + ln] = be16(sf & 0xffff)
    return d, m, m.blocks[-1].points['P'], mem, 100 + off, (0 if how == 'none' else sf)


def raw_input(cx, t, sf):
    lo, hi = int_range(t)
    lim = 1 << 50 if sf else 1 << 64
    return cx.int('raw', max(lo, -lim), min(hi, lim))


def getter(cx):
    t = cx.p['type']
    d, m, p, mem, addr, sf = build(cx, t, cx.p['where'], 1)
    raw = raw_input(cx, t, sf)
    enc = encode(t, raw)
    if bool(enc == SENTINEL[t]):
        return
    mem.update(regmem(addr, enc))
    m.read_points()
    v = p.value
    cx.check(cx.same(p.value_base, raw), 'raw value')
    if sf == 0:
        cx.check(cx.eq(v, raw), 'an unscaled point has its raw value')
        cx.reach('unscaled')
    else:
        cx.check(cx.within(v, raw, Fraction(10) ** sf, 0), 'the value is the raw value times 10^sf')
        cx.reach('scaled')
    cx.check(not p.dirty, 'reading does not mark a point modified')
    # assigning the value that was read
    p.value = v
    cx.check(cx.eq(p.value_base, raw), 'assigning back the value that was read keeps the raw value')
    cx.check(p.dirty, 'an assigned point is marked modified')
    cx.reach('set back')


def setter(cx):
    t = cx.p['type']
    d, m, p, mem, addr, sf = build(cx, t, cx.p['where'], 1)
    mem.update(regmem(addr, encode(t, 1)))
    m.read_points()
    kind = cx.p['kind']
    lim = 1 << 40
    for rep in range(cx.p.get('n', 1)):
        if kind == 'float':
            g = cx.p.get('grid', 8)
            k = cx.mint('k', -lim, lim)
            if sf == 0:
                cx.assume(k % g == 0)
            v = k / float(g)
            num, scale = k, Fraction(1, g)
        else:
            if sf == 0:
                # an integer is taken as it is, however large
                lim = 1 << 64
            k = cx.mint('k', -lim, lim) if kind == 'int' and sf else cx.int('k', -lim, lim)
            v = k if kind == 'int' else str(k)
            num, scale = k, Fraction(1)
        p.value = v
        cx.check(cx.within(p.value_base, num, scale / Fraction(10) ** sf, Fraction(1, 2)), 'the raw integer nearest to value / 10^sf is selected')
        cx.check(cx.same(p.value_base, int(p.value_base)), 'the raw value is an integer')
        cx.check(p.dirty, 'an assigned point is marked modified')
        cx.reach('set')


def changing(cx):
    """the scale factor in the device changes between reads"""
    t = cx.p['type']
    where = cx.p['where']
    first, then = cx.choice('sf1', cx.p['sfs']), cx.choice('sf2', cx.p['sfs'])
    ln = TYPE_LEN[t]
    pts = [point('P', t, 0, sf='SF')]
    if where == 'local':
        pts.append(point('SF', 'sunssf', ln))
        blocks, total, off, sfat = [block(pts, ln + 1)], ln + 1, 0, 100 + ln
    else:
        blocks, total, off, sfat = [block([point('SF', 'sunssf', 0)], 1), block(pts, ln, 'repeating')], 1 + ln, 1, 100
    use_defs(cx, {64100: model_xml(64100, total, blocks)})
    mem = {}
    d = client_device(cx, mem)
    m = load_model(cx, 64100, 100, total, d)
    p = m.blocks[-1].points['P']
    for rnd, sf in enumerate((first, then, first)):
        mem.update(regmem(100 + off, encode(t, 5 + rnd)))
        mem[sfat] = be16((sf if sf is not None else -32768) & 0xffff)
        m.read_points()
        sf = sf or 0
        if sf:
            cx.check(cx.within(p.value, 5 + rnd, Fraction(10) ** sf, 0), 'the value is the raw value times 10^sf')
        else:
            cx.check(cx.eq(p.value, 5 + rnd), 'an unscaled point has its raw value')
        k = cx.mint('k%d' % rnd, -(1 << 30), 1 << 30)
        v = k / 8.0 if sf and cx.p['kind'] == 'float' else k
        p.value = v
        cx.check(cx.within(p.value_base, k, Fraction(1, 8 if sf and cx.p['kind'] == 'float' else 1) / Fraction(10) ** sf, Fraction(1, 2)), 'the raw integer nearest to value / 10^sf is selected')
        cx.check(p.dirty, 'an assigned point is marked modified')
    cx.reach('changing')


def cases(tier):
    th = tier == 'thorough'
    out = []
    allsf = list(range(-10, 11))
    for t in SCALABLE:
        out.append(('getter', {'type': t, 'where': 'none', 'sfs': [0]}))
        for w in ('const', 'local', 'fixed'):
            for part in (allsf[:7], allsf[7:14], allsf[14:]):
                out.append(('getter', {'type': t, 'where': w, 'sfs': part}))
    for t in SCALABLE if th else ('int16', 'uint32', 'int64'):
        for w in ('const', 'local', 'fixed'):
            for kind in ('float', 'int', 'text'):
                for part in (allsf[:7], allsf[7:14], allsf[14:]):
                    out.append(('setter', {'type': t, 'where': w, 'sfs': part, 'kind': kind}))
                    if th:
                        out.append(('setter', {'type': t, 'where': w, 'sfs': part, 'kind': kind, 'n': 2, 'grid': 1024}))
        out.append(('setter', {'type': t, 'where': 'none', 'sfs': [0], 'kind': 'int'}))
        out.append(('setter', {'type': t, 'where': 'none', 'sfs': [0], 'kind': 'text'}))
    for t in ('int16', 'uint32') if not th else ('int16', 'uint32', 'int64', 'acc32'):
        for w in ('local', 'fixed'):
            for kind in ('int', 'float'):
                out.append(('changing', {'type': t, 'where': w, 'sfs': [-2, 1, None, 0], 'kind': kind}))
    return out
