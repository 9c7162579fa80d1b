"""C19 device comparison reports a difference exactly when there is one"""
from props.lib import *

META = {
    'bounds': {'quick': 'pairs of devices of up to 3 models with arbitrary register contents (all values and scale factors of up to 5 points per side, '
                        'implemented or not), 0..3, 12 and 130 repeating blocks, fixed blocks of 40 points; pairs of definitions with every attribute of model, block, point and symbol varied on one '
                        'side over arbitrary values, present or absent; all pairs of sequences of up to 3 model ids; both operand orders, at device, model, '
                        'block, point and definition level',
               'thorough': 'as quick with up to 7 points per side and sequences of up to 4 models'},
    'outside': 'definitions with points of both blocks varied at once; devices of more than 3 models',
    'reach': ['equal', 'different', 'missing value', 'definition equal', 'definition different', 'sequence equal', 'sequence different', 'no definition'],
}


def verdict(cx, a, b):
    """truth of a.not_equal(b); the result is a text or False"""
    r = a.not_equal(b)
    cx.check(r is False or isinstance(r, str), 'the verdict is a description or False')
    return r is not False


def both(cx, a, b, differ, what):
    v = verdict(cx, a, b)
    w = verdict(cx, b, a)
    d = bool(differ)
    cx.check(v == d, what + ' comparison reports a difference exactly when there is one')
    cx.check(w == d, what + ' comparison is the same for either operand')
    return d


def make(cx, sh, n, base, data):
    d = client_device(cx, regmem(base, data))
    m = load_model(cx, sh.mid, base, sh.total(n), d)
    m.read_points()
    return d


def values(cx):
    n = cx.p.get('n', 0)
    sh = Shape(cx.p['fixed'], cx.p.get('rep'))
    use_defs(cx, {sh.mid: sh.xml()})
    data = {}
    vary = list(cx.p['vary'])
    differ = []
    for side in (0, 1):
        out = b''
        for bi, e, a in sh.places(0, n):
            t, nm = e['type'], '%s_%d' % (e['id'], bi)
            if side and nm not in vary:
                out = out + data[nm]
                continue
            if t == 'sunssf':
                v = cx.choice('sf_%s_%d' % (nm, side), [-1, 0, 1] if cx.p.get('raws') else [-1, 2, None])
                x = SENTINEL[t] if v is None else be16(v)
            elif t in ('string', 'ipv6addr', 'eui48'):
                k = cx.choice('c_%s_%d' % (nm, side), [0, 1, 2])
                x = [b'\x41' * (2 * e['len'] - 1) + b'\0', b'\x41' * (2 * e['len'] - 2) + b'\x42\0', SENTINEL.get(t, b'\0' * (2 * e['len']))][k]
            elif t == 'float32':
                x = cx.choice('c_%s_%d' % (nm, side), [b'\x3f\x80\0\0', b'\x3f\x80\0\1', b'\x7f\xc0\0\0'])
            elif cx.p.get('raws') and e.get('sf'):
                # the same scaled value from different registers
                v = cx.choice('r_%s_%d' % (nm, side), cx.p['raws'])
                x = be16(v) if t == 'int16' else be32(v)
            elif nm not in vary:
                x = implemented(cx, t, 'v_' + nm)
            elif t == 'pad':
                x = cx.bytes('v_%s_%d' % (nm, side), 2)
            elif cx.choice('impl_%s_%d' % (nm, side), [1, 0]):
                x = implemented(cx, t, 'v_%s_%d' % (nm, side))
            else:
                x = SENTINEL[t]
                cx.reach('missing value')
            if side:
                if t != 'pad':
                    differ.append((nm, cx.not_(cx.same(x, data[nm]))))
            else:
                data[nm] = x
            out = out + x
        if side == 0:
            da = make(cx, sh, n, 100, out)
        else:
            db = make(cx, sh, n, 100, out)
    rel = [x for k, x in differ]
    d = both(cx, da, db, cx.any(rel), 'device')
    ma, mb = da.models_list[0], db.models_list[0]
    both(cx, ma, mb, d, 'model')
    anyb = False
    for x, y in zip(ma.blocks, mb.blocks):
        bd = verdict(cx, x, y)
        cx.check(verdict(cx, y, x) == bd, 'block comparison is the same for either operand')
        anyp = False
        for p in x.points_list + list(x.points_sf.values()):
            q = y.points[p.point_type.id] if p.point_type.id in y.points else y.points_sf[p.point_type.id]
            pd = verdict(cx, p, q)
            cx.check(verdict(cx, q, p) == pd, 'point comparison is the same for either operand')
            cx.check(cx.implies(cx.not_(cx.same(p.value_base, q.value_base)), pd), 'point comparison reports different values')
            cx.check(cx.implies(pd, cx.not_(cx.all([cx.same(p.value_base, q.value_base), cx.same(p.value_sf, q.value_sf)]))), 'equal points compare equal')
            anyp = anyp or pd
        cx.check(bd == anyp, 'a block differs when one of its points does')
        anyb = anyb or bd
    cx.check(anyb == d, 'a device differs when one of its blocks does')
    cx.check(not verdict(cx, da, da), 'a device equals itself')
    cx.reach('different' if d else 'equal')


BASE = {'mid': '64100', 'mlen': '5', 'mname': None, 'bname': None, 'rname': 'rep', 'mlabel': 'ml', 'mdesc': 'md', 'mnotes': 'mn', 'blen': '3', 'rlen': '2', 'pid': 'P', 'offset': '0', 'ptype': 'uint16',
        'plen': None, 'mandatory': None, 'access': None, 'units': None, 'sf': None, 'label': 'pl', 'desc': None, 'notes': 'pn', 'sid': 'S1', 'sval': '1',
        'slabel': None, 'roffset': '1', 'rptype': 'int16', 'raccess': 'rw', 'extra': None}
DEFAULTS = {'mname': 'model_64100', 'bname': 'fixed', 'rname': 'repeating', 'mandatory': 'false', 'access': 'r', 'raccess': 'r'}


def definition(v):
    at = lambda n, x: '' if x is None else ' ' + n + '="' + x + '"'
    el = lambda n, x: '' if x is None else '<' + n + '>' + x + '</' + n + '>'
    s = '<sunSpecModels><model id="' + v['mid'] + '" len="' + v['mlen'] + '"' + at('name', v['mname']) + '><block len="' + v['blen'] + '"' + at('name', v['bname']) + '>'
    s = s + '<point id="' + v['pid'] + '" offset="' + v['offset'] + '" type="' + v['ptype'] + '"' + at('len', v['plen']) + at('mandatory', v['mandatory'])
    s = s + at('access', v['access']) + at('units', v['units']) + at('sf', v['sf']) + '>'
    if v['sid'] is not None:
        s = s + '<symbol id="' + v['sid'] + '">' + v['sval'] + '</symbol>'
    s = s + '</point><point id="Z" offset="2" type="sunssf" />'
    if v['extra'] is not None:
        s = s + '<point id="' + v['extra'] + '" offset="1" type="uint16" />'
    s = s + '</block>'
    if v['rlen'] is not None:
        s = s + '<block type="repeating" len="' + v['rlen'] + '"' + at('name', v['rname']) + '><point id="R" offset="' + v['roffset'] + '" type="' + v['rptype'] + '"' + at('access', v['raccess'])
        s = s + ' /></block>'
    s = s + '</model><strings id="' + v['mid'] + '"><model>' + el('label', v['mlabel']) + el('description', v['mdesc']) + el('notes', v['mnotes']) + '</model>'
    s = s + '<point id="' + v['pid'] + '">' + el('label', v['label']) + el('description', v['desc']) + el('notes', v['notes'])
    if v['sid'] is not None and v['slabel'] is not None:
        s = s + '<symbol id="' + v['sid'] + '">' + el('label', v['slabel']) + '</symbol>'
    return s + '</point></strings></sunSpecModels>'


NUM = ('mlen', 'offset', 'roffset', 'mid')
NUMTEXT = ('blen', 'rlen')
OPT = ('mname', 'bname', 'rname', 'mlabel', 'mdesc', 'mnotes', 'plen', 'units', 'sf', 'label', 'desc', 'notes', 'slabel', 'extra', 'rlen', 'mandatory', 'access', 'raccess', 'sid')
ENUM = {'mandatory': ['true', 'false'], 'access': ['r', 'rw'], 'raccess': ['r', 'rw'], 'ptype': ['uint16', 'int16', 'acc16', 'enum16', 'sunssf', 'int32'],
        'rptype': ['uint16', 'int16', 'bitfield16', 'count']}


def attr(cx, k, side):
    """any value of attribute k (text or None)"""
    if k in OPT and cx.choice('has_%s_%d' % (k, side), [0, 1]) == 0:
        return None
    if k in ENUM:
        return cx.choice('e_%s_%d' % (k, side), ENUM[k])
    if k in NUM or k in NUMTEXT or k == 'plen':
        return str(cx.int('n_%s_%d' % (k, side), 1 if k == 'mid' else 0, 64000))
    n = cx.choice('len_%s_%d' % (k, side), [1, 2])
    if k == 'extra':
        return cx.chars('t_%s_%d' % (k, side), n, 97, 122)
    return cx.chars('t_%s_%d' % (k, side), n, 65, 122, exclude='[]\\^`Z')


def definitions(cx):
    device = cx.mod('sunspec.core.device')
    import xml.etree.ElementTree as ET
    ks = cx.p['attrs']
    mts, vals = [], []
    for side in (0, 1):
        v = dict(BASE)
        for k in ks:
            v[k] = attr(cx, k, side)
        m = device.ModelType()
        m.from_smdx(ET.fromstring(definition(v)))
        mts.append(m)
        vals.append(v)
    a, b = vals
    diffs = []
    for k in ks:
        x, y = a[k], b[k]
        if k == 'plen' and a['ptype'] != 'string':
            x, y = x or '1', y or '1'
        x, y = (DEFAULTS.get(k) if z is None else z for z in (x, y))
        if k == 'sval' and a['sid'] is None:
            continue
        diffs.append(cx.not_(cx.same(x, y)))
    d = both(cx, mts[0], mts[1], cx.any(diffs), 'definition')
    cx.reach('definition different' if d else 'definition equal')
    cx.check(verdict(cx, mts[0], None), 'a missing definition is a difference')
    for bt in (mts[0].fixed_block, mts[0].repeating_block):
        if bt is not None:
            cx.check(verdict(cx, bt, None), 'a missing block is a difference')
            for p in bt.points_list:
                cx.check(verdict(cx, p, None), 'a missing point is a difference')


def devdefs(cx):
    """devices whose models were loaded from different definitions of the same model"""
    k = cx.p['attr']
    ds, vals = [], []
    for side in (0, 1):
        v = dict(BASE)
        v[k] = attr(cx, k, side)
        use_defs(cx, {64100: definition(v)})
        data = b'\0\1\0\2\0\0\0\3\0\4'
        d = client_device(cx, regmem(100, data))
        m = load_model(cx, 64100, 100, 5, d)
        m.read_points()
        ds.append(d)
        vals.append(v)
    x, y = (DEFAULTS.get(k) if v[k] is None else v[k] for v in vals)
    d = both(cx, ds[0], ds[1], cx.not_(cx.same(x, y)), 'device')
    cx.reach('definition different' if d else 'definition equal')


def sequences(cx):
    client = cx.mod('sunspec.core.client')
    shs = [Shape(['uint16'], mid=64100), Shape(['uint16'], mid=64101), Shape(['uint16', 'pad'], ['uint16'], mid=64102)]
    use_defs(cx, dict((s.mid, s.xml()) for s in shs))
    N = cx.p['n']
    ds, seqs = [], []
    for side in (0, 1):
        d = client_device(cx, {})
        seq = []
        for i in range(cx.choice('count%d' % side, list(range(N + 1)))):
            k, rep = cx.choice('m%d_%d' % (side, i), [(64100, 0), (64101, 0), (64102, 0), (64102, 1), (64990, 0), (64991, 0)])
            if k < 64900:
                sh = shs[k - 64100]
                d.modbus_device.mem.update(regmem(200 + 10 * i, b'\0\1' * sh.total(rep)))
                load_model(cx, k, 200 + 10 * i, sh.total(rep), d).read_points()
            else:
                m = client.ClientModel(d, k, 200 + 10 * i, 1)
                cx.raises(m.load, Exception)
                d.add_model(m)
                cx.reach('no definition')
            seq.append((k, rep))
        ds.append(d)
        seqs.append(seq)
    d = both(cx, ds[0], ds[1], seqs[0] != seqs[1], 'device')
    cx.reach('sequence different' if d else 'sequence equal')


def cases(tier):
    th = tier == 'thorough'
    out = []
    p = lambda t, s: {'type': t, 'sf': s}
    sfp = lambda i: {'type': 'sunssf', 'id': i}
    for t in ('int16', 'uint32', 'acc64', 'float32', 'string', 'ipv6addr', 'eui48', 'enum16', 'bitfield32', 'ipaddr', 'count'):
        e = {'type': t, 'len': 3} if t == 'string' else t
        out.append(('values', {'fixed': ['uint16', e, 'pad'], 'vary': ['F1_0', 'F2_0']}))
        out.append(('values', {'fixed': ['uint16', 'pad'], 'rep': ['int16', e], 'n': 2, 'vary': ['R1_2', 'F0_0']}))
    out.append(('values', {'fixed': [p('int16', 'A'), sfp('A')], 'vary': ['F0_0', 'A_0']}))
    out.append(('values', {'fixed': [p('int16', 'A'), sfp('A'), sfp('B')], 'vary': ['A_0', 'B_0']}))
    out.append(('values', {'fixed': ['uint16', sfp('A')], 'rep': [p('int32', 'A')], 'n': 2, 'vary': ['A_0', 'R0_2']}))
    out.append(('values', {'fixed': ['uint16', sfp('A')], 'rep': [p('int32', 'A'), sfp('A')], 'n': 2, 'vary': ['A_0', 'A_2', 'R0_1']}))
    out.append(('values', {'fixed': ['uint16', 'int32', 'pad', 'acc16'], 'rep': ['uint16'], 'n': 1 + th, 'vary': ['F0_0', 'F1_0', 'F2_0', 'R0_1'] + (['F3_0', 'R0_2'] if th else [])}))
    raws = [0, 1, 10, 100]
    out.append(('values', {'fixed': [p('int16', 'A'), sfp('A')], 'vary': ['F0_0', 'A_0'], 'raws': raws}))
    out.append(('values', {'fixed': ['uint16', sfp('A')], 'rep': [p('int32', 'A'), 'uint16'], 'n': 2, 'vary': ['R0_2', 'A_0'], 'raws': raws}))
    out.append(('values', {'fixed': ['uint16'], 'rep': [p('int16', 'A'), sfp('A')], 'n': 2, 'vary': ['R0_1', 'A_1'], 'raws': raws}))
    for k in BASE:
        if k == 'slabel':
            continue
        out.append(('definitions', {'attrs': [k]}))
    for ks in (['slabel'], ['sid', 'sval'], ['label', 'units'], ['offset', 'sf'], ['rptype', 'roffset'], ['mandatory', 'access'], ['desc', 'notes'], ['mlen', 'blen'], ['extra', 'ptype']):
        out.append(('definitions', {'attrs': ks}))
    for k in ('mname', 'bname', 'rname', 'mandatory', 'access', 'units', 'label', 'desc', 'notes', 'raccess', 'sval', 'mlabel', 'mdesc', 'mnotes', 'sid'):
        out.append(('devdefs', {'attr': k}))
    out.append(('sequences', {'n': 2}))
    if th:
        out.append(('sequences', {'n': 3}))
        ks = [k for k in BASE if k not in ('slabel', 'plen')]
        for i in range(len(ks)):
            out.append(('definitions', {'attrs': [ks[i], ks[(i + 7) % len(ks)]]}))
    out.append(('values', {'fixed': ['uint16', sfp('A')], 'rep': [p('int32', 'A'), 'uint16'], 'n': 12, 'vary': ['R0_12', 'R1_11']}))
    out.append(('values', {'fixed': ['uint16'], 'rep': ['uint16'], 'n': 130, 'vary': ['R0_80', 'R0_130']}))
    q = lambda t, i: {'type': t, 'id': i}
    out.append(('values', {'fixed': [q('uint16', 'X'), q('int32', 'Y')], 'rep': [q('int16', 'Y'), q('uint32', 'X')], 'n': 2, 'vary': ['X_0', 'X_2', 'Y_1']}))
    out.append(('values', {'fixed': ['uint16', 'int32', 'pad', 'acc16', 'enum32'] * 8, 'vary': ['F39_0', 'F36_0']}))
    out.append(('values', {'fixed': ['uint16', 'int32', 'pad', 'acc16', 'enum32'] * 8, 'vary': ['F0_0', 'F20_0']}))
    out.append(('values', {'fixed': ['uint16', sfp('A')], 'vary': ['A_0', 'F0_0']}))
    out.append(('values', {'fixed': [p('int16', 'A'), sfp('A')], 'rep': ['uint16', sfp('B')], 'n': 2, 'vary': ['A_0', 'B_1', 'B_2']}))
    return out
