"""C15 scale factors resolve to the right scale-factor point"""
from props.lib import *

META = {
    'bounds': {'quick': 'fixed and repeating block with any subset of two scale-factor points each; scale factor references of 1..2 arbitrary characters out of '
                        'names, digits and sign, and of 3 out of fewer (constants, own block, fixed block, ordinary points, unknown); 0..3, 12 and 130 repeating blocks (of 130, the last one symbolic); all scale factor '
                        'register values -10..10 and unimplemented; all raw values; two successive reads',
               'thorough': 'as quick with references of 1..3 characters and three scaled points per block'},
    'outside': 'scale factor references with blanks, underscores or leading +; scale factor values outside -10..10',
    'reach': ['constant', 'own block', 'fixed block', 'unresolved', 'read', 'second read', 'unimplemented sf', 'unimplemented point'],
}


def is_const(cx, s):
    """does the reference denote an integer constant? (concrete text)"""
    t = s[1:] if s[:1] == '-' else s
    return len(t) > 0 and all(c in '0123456789' for c in t)


def resolve(s, own, fixed):
    """'const' / 'own' / 'fixed' / None"""
    if is_const(None, s):
        return 'const'
    if s in own:
        return 'own'
    if fixed is not None and s in fixed:
        return 'fixed'
    return None


def shape(fsf, rsf, frefs, rrefs):
    fx = [{'id': 'U', 'type': 'uint16'}] + [{'id': s, 'type': 'sunssf'} for s in fsf]
    fx = fx + [{'id': 'P%d' % i, 'type': t, 'sf': r} for i, (t, r) in enumerate(frefs)]
    rp = [{'id': 'Q%d' % i, 'type': t, 'sf': r} for i, (t, r) in enumerate(rrefs)]
    rp = rp + [{'id': s, 'type': 'sunssf'} for s in rsf] + [{'id': 'V', 'type': 'int16'}]
    return Shape(fx, rp)


def text(cx, s):
    """make a symbolic reference concrete by case split over its characters"""
    return ''.join([chr(cx.fork(ord(c))) for c in s])


def names(cx):
    """which point a reference resolves to, for any reference"""
    device = cx.mod('sunspec.core.device')
    client = cx.mod('sunspec.core.client')
    n = cx.p['n']
    ref = among(cx, 'ref', cx.p['len'], cx.p.get('alphabet', 'ABUVPZ09-'))
    where = cx.p['where']
    sh = shape(cx.p['fsf'], cx.p['rsf'], [('int16', ref)] if where == 'fixed' else [('int16', None)], [('int16', ref)] if where == 'rep' else [('int16', None)])
    use_defs(cx, {sh.mid: sh.xml()})
    m = (client.ClientModel if cx.p.get('client') else device.Model)(None, sh.mid, 1000, sh.total(n))
    r, e = cx.raises(m.load, device.SunSpecError)
    s = text(cx, ref)
    how = resolve(s, cx.p['fsf'] if where == 'fixed' else cx.p['rsf'], None if where == 'fixed' else cx.p['fsf'])
    if how is None:
        if where == 'fixed' or n > 0:
            cx.check(e is not None, 'a scale factor that resolves nowhere is rejected')
            cx.reach('unresolved')
        else:
            cx.check(e is None, 'a model without repeating blocks loads')
        return
    cx.check(e is None, 'a definition whose scale factors resolve loads')
    if e is not None:
        return
    blocks = [m.blocks[0]] if where == 'fixed' else m.blocks[1:]
    for b in blocks:
        p = b.points['P0' if where == 'fixed' else 'Q0']
        if how == 'const':
            cx.check(p.sf_point is not None and cx.same(p.sf_point.value_base, int(s)), 'constant scale factor')
            cx.reach('constant')
        elif how == 'own':
            cx.check(p.sf_point is b.points_sf[s], 'the scale factor point of the own block is used')
            cx.reach('own block')
        else:
            cx.check(p.sf_point is m.blocks[0].points_sf[s], 'the scale factor point of the fixed block is used')
            cx.reach('fixed block')


def values(cx):
    """scale factors carried by the points after each of two reads"""
    n = cx.p['n']
    fsf, rsf = cx.p['fsf'], cx.p['rsf']
    sh = shape(fsf, rsf, [tuple(x) for x in cx.p['frefs']], [tuple(x) for x in cx.p['rrefs']])
    use_defs(cx, {sh.mid: sh.xml()})
    base = 2000
    d = client_device(cx, {})
    m = load_model(cx, sh.mid, base, sh.total(n), d)
    for rep in range(2):
        raw = {}
        for bi, e, a in sh.places(base, n):
            nm = '%s_%d_%d' % (e['id'], bi, rep)
            if cx.p.get('few') and bi not in (0, n):
                v = (bi + rep) % 9 - 4 if e['type'] == 'sunssf' else 100 * bi + rep
                data = v.to_bytes(2 * TYPE_LEN[e['type']], 'big', signed=True)
                raw[(bi, e['id'])] = v
            elif e['type'] == 'sunssf':
                v = cx.int('sf_' + nm, -10, 10)
                data = be16(v)
                if e['id'] == 'A' and bi in (0, n) and cx.choice('sfimpl_%s' % nm, [1, 0]) == 0:
                    v, data = None, SENTINEL['sunssf']
                    cx.reach('unimplemented sf')
                raw[(bi, e['id'])] = v
            else:
                data = implemented(cx, e['type'], 'raw_' + nm)
                v = decode(e['type'], data)
                if e['id'] in ('P0', 'Q0') and bi == cx.p.get('unimpl') and rep == cx.p.get('unrep', 1):
                    v, data = None, SENTINEL[e['type']]
                    cx.reach('unimplemented point')
                raw[(bi, e['id'])] = v
            d.modbus_device.mem.update(regmem(a, data))
        m.read_points()
        for bi, e, a in sh.places(base, n):
            p = the_point(m, bi, e)
            v = raw[(bi, e['id'])]
            cx.check(cx.same(p.value_base, v) if v is not None else p.value_base is None, 'raw value of this read')
            if e.get('sf') is None:
                if e['type'] != 'sunssf':
                    cx.check(p.value_sf is None, 'a point without scale factor has none')
                continue
            how = resolve(e['sf'], rsf if bi else fsf, fsf if bi else None)
            want = int(e['sf']) if how == 'const' else raw[(bi if how == 'own' else 0, e['sf'])]
            if v is None:
                cx.check(p.value is None, 'an unimplemented point has no value')
            elif want is None:
                cx.check(p.value_sf is None, 'an unimplemented scale factor leaves the point unscaled')
                cx.check(cx.same(p.value, v), 'an unimplemented scale factor leaves the point unscaled')
            else:
                cx.check(p.value_sf is not None and cx.same(p.value_sf, want), 'the scale factor read in the same read is used')
        cx.reach('second read' if rep else 'read')


def cases(tier):
    th = tier == 'thorough'
    out = []
    lens = (1, 2, 3) if th else (1, 2)
    subs = ([], ['A'], ['B'], ['A', 'B'])
    for ln in lens:
        for f in subs:
            for r in subs if ln == 1 else ([], ['A']):
                al = 'ABUVPZ09-' if ln < 3 else 'AB1-'
                out.append(('names', {'where': 'rep', 'len': ln, 'fsf': f, 'rsf': r, 'n': 2, 'client': ln == 1, 'alphabet': al}))
            out.append(('names', {'where': 'fixed', 'len': ln, 'fsf': f, 'rsf': ['B'], 'n': 1, 'alphabet': al}))
            out.append(('names', {'where': 'fixed', 'len': ln, 'fsf': f, 'rsf': ['A'], 'n': 0, 'client': True, 'alphabet': al}))
        out.append(('names', {'where': 'rep', 'len': ln, 'fsf': ['A'], 'rsf': ['B'], 'n': 0}))
    out.append(('names', {'where': 'rep', 'len': 2, 'fsf': ['AA', 'BA'], 'rsf': ['AB', 'BA'], 'n': 3}))
    fr = [['uint16', 'A'], ['int32', '-2']]
    for n in (1, 2, 3):
        for rsf, rr in ((['A'], [['int16', 'A'], ['uint32', 'A']]), ([], [['int16', 'A'], ['uint32', 'B']]), (['B'], [['uint64', 'A'], ['acc32', 'B']]),
                        (['A', 'B'], [['int16', 'B'], ['int64', '3']])):
            for un in ([None, 0, n] if n < 3 or th else [None]):
                for ur in (0, 1):
                    if un is not None or ur == 0:
                        out.append(('values', {'n': n, 'fsf': ['A', 'B'], 'rsf': rsf, 'frefs': fr, 'rrefs': rr, 'unimpl': un, 'unrep': ur}))
    out.append(('values', {'n': 12, 'fsf': ['A', 'B'], 'rsf': ['A'], 'frefs': fr, 'rrefs': [['int16', 'A'], ['uint32', 'B']], 'unimpl': None, 'unrep': 0}))
    out.append(('names', {'where': 'rep', 'len': 1, 'fsf': ['A'], 'rsf': ['B'], 'n': 12}))
    for un in (None, 129):
        out.append(('values', {'n': 130, 'fsf': ['A', 'B'], 'rsf': ['A'], 'frefs': fr, 'rrefs': [['int16', 'A'], ['uint32', 'B']], 'unimpl': un, 'unrep': 0, 'few': 1}))
    for w in ('fixed', 'rep'):
        out.append(('names', {'where': w, 'len': 3, 'fsf': ['A'], 'rsf': ['B'], 'n': 1, 'alphabet': '-012'}))
        out.append(('names', {'where': w, 'len': 3, 'fsf': ['AB1', 'AB'], 'rsf': ['AB2', 'AB1'], 'n': 2, 'alphabet': 'AB12'}))
    for c, d in (('10', '-10'), ('-9', '7'), ('0', '-1'), ('1', '-5')):
        out.append(('values', {'n': 1, 'fsf': ['A', 'B'], 'rsf': ['A'], 'frefs': [['uint16', c], ['int32', d]], 'rrefs': [['int16', d], ['uint32', c]], 'unimpl': None, 'unrep': 0}))
    return out
