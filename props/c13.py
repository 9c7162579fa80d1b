"""C13 model layout matches the definition for every length a device reports"""
from props.lib import *

DEVICE = 'sunspec.core.device'
META = {
    'bounds': {'quick': 'definitions of 11 shapes (fixed block only, fixed and repeating, with pads, scale factors, strings, the 66 register common model), every '
                        'model address 0..65535, every reported length 1..(definition + 4 repeating blocks + 3) and lengths for 9..12 and 99..101 repeating blocks at one address, symbolic point offsets 0..200; plain and client models; repeating blocks of every defined length -40..0',
               'thorough': 'as quick with up to 10 repeating blocks'},
    'outside': 'a reported length of 0',
    'reach': ['loaded', 'rejected', 'extra registers', 'repeating', 'legacy common', 'no length'],
}

# shape: (model id, [(type, len)] fixed, [(type, len)] repeating or None); pads included
SHAPES = {
    'one': (64100, [('uint16', 1)], None),
    'fixed': (64100, [('uint16', 1), ('pad', 1), ('int32', 2), ('string', 3), ('sunssf', 1)], None),
    'rep1': (64100, [('uint16', 1)], [('int16', 1)]),
    'rep3': (64100, [('uint16', 1), ('sunssf', 1)], [('uint32', 2), ('pad', 1)]),
    'rep5': (64100, [('string', 2), ('pad', 1), ('acc64', 4)], [('eui48', 4), ('sunssf', 1)]),
    'ipv6': (64100, [('pad', 1), ('ipv6addr', 8)], [('float32', 2), ('enum16', 1), ('pad', 1)]),
    'common': (1, [('string', 16), ('string', 16), ('string', 8), ('string', 8), ('string', 16), ('uint16', 1), ('pad', 1)], None),
    'long65': (64100, [('string', 61), ('uint16', 1), ('pad', 1)], [('int16', 1)]),
    'long66': (2, [('string', 16)] * 3 + [('string', 17), ('uint16', 1)], None),
    'many': (64100, [('uint16', 1), ('int32', 2), ('pad', 1), ('enum16', 1), ('sunssf', 1)] * 5, [('bitfield32', 2), ('sunssf', 1), ('pad', 1)] * 4),
    'one1': (1, [('uint16', 1), ('pad', 1)], [('uint16', 1), ('pad', 1)]),
}


def points_of(cx, spec, tag, sym):
    out = []
    off = 0
    for i, (t, n) in enumerate(spec):
        o = cx.int('off%s%d' % (tag, i), 0, 200) if sym else off
        out.append((tag + str(i), t, n, o))
        off += n
    return out, off


def layout(cx):
    device = cx.mod(DEVICE)
    client = cx.mod('sunspec.core.client')
    mid, fx, rp = SHAPES[cx.p['shape']]
    fpts, flen = points_of(cx, fx, 'F', cx.p.get('sym'))
    rpts, rlen = points_of(cx, rp, 'R', cx.p.get('sym')) if rp else ([], 0)

    def xml(pts):
        return [point(i, t, o, n if t == 'string' else None) for i, t, n, o in pts]
    blocks = [block(xml(fpts), flen)]
    if rp:
        blocks.append(block(xml(rpts), rlen, 'repeating'))
    use_defs(cx, {mid: model_xml(mid, flen + rlen, blocks)})
    base = 40002 if 'reps' in cx.p else cx.int('addr', 0, 65535)
    low, high = cx.p.get('reps', (0, cx.p.get('maxrep', 4)))
    top = flen + high * rlen + 3
    mlen = cx.int('len', max(1, flen - 4) if cx.p['shape'] in ('common', 'long65', 'long66') else flen + low * rlen - 1 if low else 1, top)
    kind = cx.p['kind']
    if kind == 'plain':
        m = device.Model(None, mid, base, mlen)
    else:
        m = client.ClientModel(None, mid, base, mlen)
    r, e = cx.raises(m.load, device.SunSpecError)
    legacy = cx.p['shape'] == 'common'
    extra = mlen - flen
    if legacy and bool(mlen == 65):
        ok = True
        nrep = 0
        cx.reach('legacy common')
    elif bool(extra < 0):
        ok = False
    elif rp is None:
        ok = True
        nrep = 0
        if bool(extra > 0):
            cx.reach('extra registers')
    else:
        extra = cx.fork(extra)
        ok = extra % rlen == 0
        nrep = extra // rlen
    if not ok:
        cx.check(e is not None, 'a length that does not fit the definition is rejected')
        cx.reach('rejected')
        return
    cx.check(e is None, 'a length that fits the definition loads')
    if e is not None:
        return
    cx.check(len(m.blocks) == 1 + nrep, 'as many repeating blocks as fit the reported length')
    cx.check(cx.all([m.addr == base, m.len == mlen, m.id == mid]), 'model attributes')
    if nrep:
        cx.reach('repeating')
    for bi, b in enumerate(m.blocks):
        baddr = base if bi == 0 else base + flen + (bi - 1) * rlen
        pts = fpts if bi == 0 else rpts
        cx.check(cx.all([int(b.addr) == baddr, b.index == bi]), 'block address and index')
        if not legacy:
            cx.check(int(b.len) == (flen if bi == 0 else rlen), 'block length')
        cx.check(b.type == ('fixed' if bi == 0 else 'repeating'), 'block type')
        plain = [p for p in pts if p[1] not in ('pad', 'sunssf')]
        sfs = [p for p in pts if p[1] == 'sunssf']
        cx.check([p.point_type.id for p in b.points_list] == [p[0] for p in plain], 'points in definition order, pads left out')
        cx.check(sorted(b.points) == sorted(p[0] for p in plain) and sorted(b.points_sf) == sorted(p[0] for p in sfs), 'points by id')
        for d, l in ((b.points, plain), (b.points_sf, sfs)):
            for i, t, n, o in l:
                p = d[i]
                cx.check(int(p.addr) == baddr + o, 'each point is at its block address plus its offset')
                cx.check(p.point_type.type == t and int(p.point_type.len) == n and p.block is b, 'point type and length')
                cx.check(p.value is None and not p.dirty, 'a new point has no value')
        for p in b.points_list:
            cx.check(b.points[p.point_type.id] is p, 'points list and dictionary agree')
    cx.check(m.points is m.blocks[0].points and m.points_list is m.blocks[0].points_list and m.points_sf is m.blocks[0].points_sf or
             (sorted(m.points) == sorted(m.blocks[0].points) and all(m.points[k] is m.blocks[0].points[k] for k in m.points)),
             'the fixed block points are the model points')
    cx.reach('loaded')


def missing(cx):
    """a model without a definition is an error"""
    device = cx.mod(DEVICE)
    use_defs(cx, {64100: model_xml(64100, 1, [block([point('A', 'uint16', 0)], 1)])})
    mid = cx.int('mid', 0, 65535)
    m = device.Model(None, mid, 0, 1)
    r, e = cx.raises(m.load, device.SunSpecError)
    cx.check(cx.iff(mid == 64100, e is None), 'a model loads exactly when it has a definition')
    cx.reach('rejected' if e else 'loaded')


def no_length(cx):
    """a definition whose repeating block has no length"""
    device = cx.mod(DEVICE)
    rlen = cx.int('rlen', -40, 0)
    pts = [point('R', 'uint16', 0)] if cx.choice('points', [0, 1]) else []
    use_defs(cx, {64100: model_xml(64100, 2, [block([point('A', 'uint16', 0)], 2), block(pts, cx.fork(rlen) if cx.native else rlen, 'repeating')])})
    extra = cx.choice('extra', [0, 1, 2, 5])
    m = device.Model(None, 64100, 40002, 2 + extra)
    r, e = cx.raises(m.load, device.SunSpecError)
    if extra:
        cx.check(e is not None, 'a repeating block without length does not fit')
        cx.reach('no length')
    else:
        cx.check(e is None and len(m.blocks) == 1, 'the fixed block alone fits')


def cases(tier):
    t = tier == 'thorough'
    out = [('missing', {})]
    for s in SHAPES:
        for kind in ('plain', 'client') if s != 'many' else ():
            for sym in (0, 1):
                out.append(('layout', {'shape': s, 'kind': kind, 'sym': sym, 'maxrep': 10 if t else 4}))
    for s in ('rep1', 'rep3', 'ipv6', 'many'):
        for r in ((9, 12), (99, 103)) + (((127, 130), (255, 258)) if s == 'rep3' else ()):
            if r[0] == 9 or s in ('rep1', 'rep3', 'ipv6'):
                out.append(('layout', {'shape': s, 'kind': 'client' if s == 'rep3' else 'plain', 'sym': 0, 'reps': r}))
    out.append(('no_length', {}))
    return out
