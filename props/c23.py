"""C23 model definitions are parsed faithfully and found under their id"""
from props.lib import *

DEVICE = 'sunspec.core.device'
META = {
    'bounds': {'quick': 'definitions with a fixed and a repeating block of 1..3, 12, 20 and 60 points each: every point type, every attribute present or absent; '
                        'arbitrary model ids 0..65535, lengths, offsets and point lengths 0..65535; arbitrary ids, names, units, scale-factor names, labels, '
                        'descriptions and notes of 1 to 3 printable characters; 1, 2, 3, 12 and 40 symbols per point with arbitrary ids and values; string sections of other models, unrelated elements and any order inside string sections; '
                        'every kind of rejection at every point position; file names of 14 arbitrary characters',
               'thorough': 'texts of up to 6 characters; rejections combined with arbitrary attributes'},
    'outside': 'the same point id in both blocks of one model, empty texts, non-numeric block lengths (found when the model is laid out)',
    'reach': ['parsed', 'large', 'defaults', 'rejected', 'recovered', 'strings', 'symbols', 'file name', 'not a file name', 'found', 'minimal'],
}
TYPES = ['int16', 'uint16', 'count', 'acc16', 'enum16', 'bitfield16', 'pad', 'int32', 'uint32', 'acc32', 'enum32', 'bitfield32', 'ipaddr', 'int64', 'uint64',
         'acc64', 'ipv6addr', 'float32', 'string', 'sunssf', 'eui48']


def txt(cx, name):
    return cx.chars(name, cx.choice('n_' + name, cx.p.get('lens', [1, 3])), 33, 126, exclude='<>&"\'')


def maybe(cx, name, on, f):
    if not on:
        return None
    return f() if cx.choice('has_' + name, [0, 1]) else None


def attr(s, name, v):
    return s if v is None else s + ' ' + name + '="' + str(v) + '"'


def tag(name, v):
    return '' if v is None else '<' + name + '>' + v + '</' + name + '>'


class Spec(object):
    pass


def a_point(cx, u, vary, ptype=None, pid=None):
    s = Spec()
    s.id = txt(cx, 'id' + u) if 'id' in vary else (pid or 'P' + u)
    s.type = ptype or 'uint16'
    s.offset = cx.int('off' + u, 0, 65535) if 'offset' in vary else 3
    s.len = maybe(cx, 'len' + u, 'len' in vary, lambda: cx.int('plen' + u, 0, 65535))
    if s.type == 'string' and s.len is None:
        s.len = 8
    s.access = maybe(cx, 'acc' + u, 'access' in vary, lambda: cx.choice('access' + u, ['r', 'rw']))
    s.mandatory = maybe(cx, 'man' + u, 'mandatory' in vary, lambda: cx.choice('mandatory' + u, ['true', 'false']))
    s.units = maybe(cx, 'un' + u, 'units' in vary, lambda: txt(cx, 'units' + u))
    s.sf = maybe(cx, 'sf' + u, 'sf' in vary, lambda: cx.choice('sfkind' + u, [0, 1]) and txt(cx, 'sfname' + u) or str(cx.int('sfval' + u, -10, 10)))
    s.symbols = []
    s.label = s.description = s.notes = None
    inline = ''
    if 'inline' in vary:
        s.label, s.description, s.notes = [maybe(cx, k + u, True, lambda: txt(cx, k + u + 't')) for k in ('label', 'description', 'notes')]
        inline = tag('label', s.label) + tag('description', s.description) + tag('notes', s.notes)
    if 'symbols' in vary:
        n = cx.choice('nsym' + u, [0, 1, 2])
        for i in range(n):
            sid = ('Y%d' % i) + txt(cx, 'sym%s_%d' % (u, i))
            val = str(cx.int('symval%s_%d' % (u, i), 0, 4294967295))
            s.symbols.append((sid, val))
            inline += '<symbol id="' + sid + '">' + val + '</symbol>'
    x = '<point id="' + s.id + '" offset="' + str(s.offset) + '" type="' + s.type + '"'
    for k in ('len', 'access', 'mandatory', 'units', 'sf'):
        x = attr(x, k, getattr(s, k))
    s.xml = x + '>' + inline + '</point>'
    return s


def same_point(cx, pt, s):
    cx.check(cx.same(pt.id, s.id), 'point id')
    cx.check(pt.type == s.type, 'point type')
    cx.check(pt.offset == s.offset, 'point offset')
    cx.check(pt.len == (s.len if s.len is not None else TYPE_LEN.get(s.type)), 'point length')
    sm = cx.mod('sunspec.core.suns')
    cx.check(pt.access == (sm.SUNS_ACCESS_RW if s.access == 'rw' else sm.SUNS_ACCESS_R), 'point access')
    cx.check(pt.mandatory == (sm.SUNS_MANDATORY_TRUE if s.mandatory == 'true' else sm.SUNS_MANDATORY_FALSE), 'mandatory flag')
    cx.check(sm.SUNS_MANDATORY_TRUE != sm.SUNS_MANDATORY_FALSE and sm.SUNS_ACCESS_R != sm.SUNS_ACCESS_RW, 'flags are distinct')
    cx.check(cx.same(pt.units, s.units), 'point units')
    cx.check(cx.same(pt.sf, s.sf), 'point scale factor')
    for k in ('label', 'description', 'notes'):
        cx.check(cx.same(getattr(pt, k), getattr(s, k)), 'point label, description and notes')
    cx.check(cx.same([(y.id, y.value) for y in pt.symbols], s.symbols), 'point symbols')
    for y in pt.symbols:
        cx.check(pt.symbol_get(y.id) is y, 'symbols are found by id')
    if s.access is None and s.mandatory is None and s.len is None:
        cx.reach('defaults')


def get(cx, mid, xml):
    use_defs(cx, {mid: xml})
    device = cx.mod(DEVICE)
    return cx.raises(lambda: device.model_type_get(mid), device.SunSpecError)


def point_attrs(cx):
    """every attribute of a point, next to another point"""
    vary = cx.p['vary']
    a = a_point(cx, 'a', vary, cx.p['type'])
    b = a_point(cx, 'b', [], 'int32', 'Zother')
    cx.assume(cx.not_(a.id == b.id))
    order = [a, b] if cx.p.get('first', 1) else [b, a]
    rep = cx.p.get('rep', 0)
    fixed = '<block len="9">' + ('' if rep else a.xml + b.xml if order[0] is a else b.xml + a.xml) + '</block>'
    blocks = fixed + ('<block type="repeating" len="4">' + order[0].xml + order[1].xml + '</block>' if rep else '')
    mt, e = get(cx, 7, '<sunSpecModels v="1"><model id="7" len="13">' + blocks + '</model></sunSpecModels>')
    cx.check(e is None, 'a valid definition is accepted')
    if e is not None:
        return
    bt = mt.repeating_block if rep else mt.fixed_block
    cx.check(len(bt.points_list) == 2, 'every point is there')
    for s, pt in zip(order, bt.points_list):
        same_point(cx, pt, s)
        cx.check(bt.points.get(s.id) is pt, 'points are found by id')
    cx.reach('parsed')


def large(cx):
    """blocks of many points with many symbols, and string sections for all of them"""
    sizes = cx.p['sizes']
    at = cx.choice('at', cx.p['at'])
    specs = []
    k = 0
    for b, n in enumerate(sizes):
        l = []
        for i in range(n):
            s = a_point(cx, '%d_%d' % (b, i), ['access', 'units'] if k == at else [], TYPES[k % len(TYPES)], 'Q%d_%d' % (b, i))
            s.symbols = [('S%d' % j, str(j * 3 + k)) for j in range(cx.p['nsym'])] if s.type in ('enum16', 'bitfield32', 'bitfield16', 'enum32') else []
            s.xml = s.xml.replace('</point>', '') + ''.join('<symbol id="%s">%s</symbol>' % y for y in s.symbols) + '</point>'
            l.append(s)
            k += 1
        specs.append(l)
    x = '<model id="77" len="200">'
    for b, l in enumerate(specs):
        x = x + '<block ' + ('type="repeating" ' if b else '') + 'len="100">' + ''.join(s.xml for s in l) + '</block>'
    x += '</model><strings id="77" locale="en"><model><label>model</label></model>'
    lab = txt(cx, 'lab')
    k = 0
    for l in specs:
        for s in l:
            s.label = lab if k == at else 'L' + s.id
            s.description = None if k % 2 else 'D' + s.id
            s.notes = None if k % 3 else 'N' + s.id
            x = x + '<point id="' + s.id + '">' + tag('label', s.label) + tag('description', s.description) + tag('notes', s.notes)
            x += ''.join('<symbol id="%s"><label>%s</label></symbol>' % (y[0], s.id + y[0]) for y in s.symbols) + '</point>'
            k += 1
    mt, e = get(cx, 77, '<sunSpecModels v="1">' + x + '</strings></sunSpecModels>')
    cx.check(e is None, 'a valid definition is accepted')
    if e is not None:
        return
    cx.check(mt.label == 'model', 'model label')
    for l, bt in zip(specs, (mt.fixed_block, mt.repeating_block)):
        cx.check([p.id for p in bt.points_list] == [s.id for s in l], 'points of the block')
        for s, pt in zip(l, bt.points_list):
            same_point(cx, pt, s)
            cx.check(bt.points.get(s.id) is pt, 'points are found by id')
            for y in pt.symbols:
                cx.check(y.label == s.id + y.id and y.description is None, 'symbol labels')
    cx.reach('large')


def model_attrs(cx):
    """attributes of the model and its blocks"""
    device = cx.mod(DEVICE)
    vary = cx.p['vary']
    mlen = cx.int('mlen', 0, 65535)
    name = maybe(cx, 'mname', 'name' in vary, lambda: txt(cx, 'mname'))
    ft = maybe(cx, 'ftype', True, lambda: 'fixed')
    flen, rlen = cx.int('flen', 0, 65535), cx.int('rlen', 0, 65535)
    fname_, rname = [maybe(cx, k, k in vary, lambda: txt(cx, k + '_t')) for k in ('fname', 'rname')]
    nrep = cx.choice('nrep', [0, 1])
    nfix = cx.choice('nfix', [0, 1]) if nrep == 0 else 1
    swap = cx.choice('swap', [0, 1]) if nrep else 0
    pf = [a_point(cx, 'f%d' % i, []) for i in range(2)]
    pr = [a_point(cx, 'r%d' % i, []) for i in range(2)]
    fx = attr(attr(attr('<block', 'type', ft), 'len', flen), 'name', fname_) + '>' + ''.join(p.xml for p in pf) + '</block>' if nfix else ''
    rx = attr(attr('<block type="repeating"', 'len', rlen), 'name', rname) + '>' + ''.join(p.xml for p in pr) + '</block>' if nrep else ''
    mx = attr(attr('<model id="9"', 'len', mlen), 'name', name) + '>' + (rx + fx if swap else fx + rx) + '</model>'
    other = cx.choice('other', ['', '<strings id="9"></strings>'])
    mt, e = get(cx, 9, '<sunSpecModels v="1">' + mx + other + '</sunSpecModels>')
    cx.check(e is None, 'a valid definition is accepted')
    if e is not None:
        return
    cx.check(mt.id == 9, 'model id')
    cx.check(mt.len == mlen, 'model length')
    cx.check(cx.same(mt.name, 'model_9' if name is None else name), 'model name')
    cx.check(cx.all([mt.label is None, mt.description is None, mt.notes is None]), 'no strings, no labels')
    fb, rb = mt.fixed_block, mt.repeating_block
    sm = cx.mod('sunspec.core.suns')
    cx.check(fb is not None and fb.type == sm.SUNS_BLOCK_FIXED, 'there is a fixed block')
    if nfix:
        cx.check(int(fb.len) == flen, 'block length')
        cx.check(cx.same(fb.name, 'fixed' if fname_ is None else fname_), 'block name')
        cx.check([p.id for p in fb.points_list] == [p.id for p in pf], 'points of the block')
    else:
        cx.check(len(fb.points_list) == 0, 'points of the block')
        cx.reach('minimal')
    cx.check((rb is not None) == bool(nrep), 'repeating block exactly when defined')
    if nrep and rb is not None:
        cx.check(rb.type == sm.SUNS_BLOCK_REPEATING, 'repeating block type')
        cx.check(int(rb.len) == rlen, 'block length')
        cx.check(cx.same(rb.name, 'repeating' if rname is None else rname), 'block name')
        cx.check([p.id for p in rb.points_list] == [p.id for p in pr], 'points of the block')
    cx.reach('parsed')


def strings(cx):
    """labels, descriptions and notes of the model, its points and symbols"""
    sec = cx.p['sec']
    ids = {'f': 'FP', 'r': 'RP'}
    mid = 11
    syms = [('A', '1'), ('B', '2')]
    pts = dict((k, '<point id="' + ids[k] + '" offset="0" type="enum16">' + ''.join('<symbol id="%s">%s</symbol>' % s for s in syms) + '</point>'
                + '<point id="' + ids[k] + '2" offset="1" type="uint16" />') for k in ids)
    model = '<model id="11" len="4"><block len="2">' + pts['f'] + '</block><block type="repeating" len="2">' + pts['r'] + '</block></model>'

    def texts(u, on=True):
        return dict((k, maybe(cx, u + k, on, lambda: txt(cx, u + k + 't'))) for k in ('label', 'description', 'notes'))

    odd = cx.p.get('odd')
    todo = '<todo>' + txt(cx, 'todo') + '</todo>' if odd else ''

    def body(t):
        keys = ('notes', 'description', 'label') if odd == 'reversed' else ('label', 'description', 'notes')
        return (todo if odd == 'before' else '') + ''.join(tag(k, t[k]) + (todo if odd == 'between' else '') for k in keys) + (todo if odd == 'reversed' else '')
    tm = texts('m', sec == 'm')
    tp = texts('p', sec in ('f', 'r'))
    ty = texts('y', sec in ('fy', 'ry'))
    where = sec[0]
    sym = cx.choice('which', ['A', 'B']) if len(sec) == 2 else None
    s = ''
    if where == 'm':
        s = '<model>' + body(tm) + '</model>'
    else:
        s = '<point id="' + ids[where] + '">' + body(tp) + (('<symbol id="' + sym + '">' + body(ty) + '</symbol>') if sym else '') + '</point>'
    foreign = '<strings id="12"><model><label>no</label></model><point id="FP"><label>no</label></point></strings>'
    unknown = '<point id="Q"><label>no</label></point>'
    pos = cx.choice('pos', [0, 1, 2])
    own = '<strings id="11" locale="en">' + (unknown if pos == 1 else '') + s + '</strings>'
    doc = model + (own + foreign if pos == 0 else foreign + own if pos == 1 else own)
    mt, e = get(cx, mid, '<sunSpecModels v="1">' + doc + '</sunSpecModels>')
    cx.check(e is None, 'a valid definition is accepted')
    if e is not None:
        return
    none = dict((k, None) for k in tm)

    def has(o, t):
        for k in t:
            cx.check(cx.same(getattr(o, k), t[k]), 'label, description and notes')
    has(mt, tm if where == 'm' else none)
    for k, bt in (('f', mt.fixed_block), ('r', mt.repeating_block)):
        has(bt.points[ids[k]], tp if where == k else none)
        has(bt.points[ids[k] + '2'], none)
        got = bt.points[ids[k]].symbols
        cx.check([(y.id, y.value) for y in got] == syms, 'symbols keep id and value')
        for y in got:
            has(y, ty if where == k and y.id == sym else none)
            if y.id == sym:
                cx.reach('symbols')
    cx.reach('strings')


BAD = [('id', None), ('offset', None), ('offset', 'x'), ('type', None), ('type', 'int8'), ('type', 'INT16'), ('type', 'uint'), ('type', ''), ('access', 'w'), ('access', 'RW'),
       ('access', ''), ('mandatory', 'yes'), ('mandatory', 'True'), ('mandatory', ''), ('string', None), ('dup', None)]


def rejected(cx):
    """one defect in a definition"""
    device = cx.mod(DEVICE)
    what = cx.p['what']
    npt = 3
    where = cx.choice('block', ['fixed', 'repeating'])
    k = cx.choice('at', list(range(npt)))
    bad = cx.choice('bad', BAD) if what == 'point' else (None, None)
    free = cx.p.get('chars')
    if free:
        # arbitrary text in place of a keyword
        v = cx.chars('text', free, 33, 126, exclude='<>&"\'')
        kind = what
        known = {'type': TYPES, 'access': ['r', 'rw'], 'mandatory': ['true', 'false']}[kind]
        for w in known:
            if len(w) == free:
                cx.assume(cx.not_(v == w))
        bad = (kind, v)

    def pts(w):
        out = ''
        for i in range(npt):
            p = {'id': w[0] + str(i), 'offset': str(i), 'type': 'uint16', 'access': 'r', 'mandatory': 'true'}
            if w == where and i == k:
                if bad[0] == 'string':
                    p['type'] = 'string'
                elif bad[0] == 'dup':
                    p['id'] = w[0] + str((k + 1) % npt)
                elif bad[0]:
                    p[bad[0]] = bad[1]
            x = '<point'
            for a in p:
                x = attr(x, a, p[a])
            out += x + ' />'
        return out

    def good_pts(w):
        return ''.join('<point id="%s%d" offset="%d" type="uint16" />' % (w[0], i, i) for i in range(npt))
    good = '<sunSpecModels v="1"><model id="9" len="6"><block len="3">' + good_pts('fixed') + '</block><block len="3" type="repeating">' + good_pts('repeating') \
        + '</block></model></sunSpecModels>'
    f = '<block len="3">' + pts('fixed') + '</block>'
    r = '<block len="3" type="repeating">' + pts('repeating') + '</block>'
    m = '<model id="9" len="6">'
    if what == 'block':
        d = cx.choice('defect', ['nolen', 'type', 'type2', 'dup', 'dup2', 'mlen', 'mlenx', 'mid', 'midx'])
        if d == 'nolen':
            f, r = (f.replace(' len="3"', ''), r) if where == 'fixed' else (f, r.replace(' len="3"', ''))
        elif d == 'type':
            f = f.replace(' len="3"', ' len="3" type="Fixed"')
        elif d == 'type2':
            r = r.replace('repeating', 'repeat')
        elif d == 'dup':
            f = f + f if where == 'fixed' else f
            r = r + r if where == 'repeating' else r
        elif d == 'dup2':
            r = r + (f if where == 'fixed' else r)
        elif d == 'mlen':
            m = '<model id="9">'
        elif d == 'mlenx':
            m = '<model id="9" len="six">'
        elif d == 'mid':
            m = '<model len="6">'
        elif d == 'midx':
            m = '<model id="nine" len="6">'
    elif what == 'btype':
        v = cx.chars('text', cx.p['n'], 33, 126, exclude='<>&"\'')
        cx.assume(cx.not_(cx.any([v == 'fixed', v == 'repeating'])))
        if where == 'fixed':
            f = '<block len="3" type="' + v + '"></block>'
        else:
            r = '<block len="3" type="' + v + '"></block>'
    doc = '<sunSpecModels v="1">' + m + f + r + '</model></sunSpecModels>'
    mt, e = get(cx, 9, doc)
    cx.check(e is not None, 'a faulty definition is rejected')
    cx.reach('rejected')
    # the definition put right is accepted
    mt, e = get(cx, 9, good)
    cx.check(e is None, 'the corrected definition is accepted')
    if e is None:
        cx.check([p.id for p in mt.fixed_block.points_list] == ['f0', 'f1', 'f2'], 'points of the corrected definition')
        cx.check([p.id for p in mt.repeating_block.points_list] == ['r0', 'r1', 'r2'], 'points of the corrected definition')
        cx.reach('recovered')


class OneFile(object):
    def __init__(self, cx, mid, xml):
        self.cx, self.mid, self.xml, self.asked = cx, mid, xml, []

    def read(self, name):
        self.asked.append(name)
        digits = ''.join(str((self.mid // 10 ** k) % 10) for k in (4, 3, 2, 1, 0))
        if not (name == 'smdx_' + digits + '.xml'):
            raise NameError(name)
        return self.xml


def found(cx):
    """the definition of a model is looked up under the file name of its id"""
    device = cx.mod(DEVICE)
    lo, hi = cx.p['range']
    mid = cx.int('mid', lo, hi)
    if cx.p.get('fork'):
        mid = cx.fork(mid)
    n = cx.int('len', 0, 65535)
    d = OneFile(cx, mid, '<sunSpecModels v="1"><model id="' + str(mid) + '" len="' + str(n) + '"><block len="1"></block></model></sunSpecModels>')
    device.file_pathlist = d
    mt = device.model_type_get(mid if cx.choice('kind', [0, 1]) else str(mid))
    cx.check(cx.all([mt.id == mid, mt.len == n]), 'the definition with the id of the model')
    cx.check(cx.same(mt.name, 'model_' + str(mid)), 'default name')
    cx.reach('found')


def filename(cx):
    smdx = cx.mod('sunspec.core.smdx')
    lo, hi = cx.p['range']
    mid = cx.int('mid', lo, hi)
    name = smdx.model_id_to_filename(mid)
    digits = ''.join(str((mid // 10 ** k) % 10) for k in (4, 3, 2, 1, 0))
    cx.check(cx.same(name, 'smdx_' + digits + '.xml'), 'file name is smdx_ and five digits')
    cx.check(smdx.model_filename_to_id(name) == mid, 'the id of the file name')
    cx.check(cx.same(smdx.model_id_to_filename(str(mid)), name), 'ids given as text')
    cx.reach('file name')


def back(cx):
    smdx = cx.mod('sunspec.core.smdx')
    d = cx.chars('digits', 5, 48, 57)
    mid = smdx.model_filename_to_id('smdx_' + d + '.xml')
    want = 0
    for c in d:
        want = want * 10 + (ord(c) - 48)
    cx.check(cx.same(mid, want), 'the id of a file name')
    cx.check(cx.same(smdx.model_id_to_filename(mid), 'smdx_' + d + '.xml'), 'the file name of that id')
    cx.reach('file name')


def odd(cx):
    """names that are not those of definitions"""
    smdx = cx.mod('sunspec.core.smdx')
    part = cx.p['part']
    pre, mid, suf = 'smdx_', '00101', '.xml'
    if part == 'pre':
        pre = cx.chars('pre', 5, 33, 126)
        ok = pre == 'smdx_'
    elif part == 'suf':
        suf = cx.chars('suf', 4, 33, 126)
        ok = suf == '.xml'
    else:
        mid = cx.chars('mid', 1, 58, 126, exclude='_')
        mid = '0' * cx.p['at'] + mid + '0' * (4 - cx.p['at'])
        ok = False
    r = smdx.model_filename_to_id(pre + mid + suf)
    cx.check(cx.iff(ok, r is not None), 'exactly definition file names have an id')
    cx.reach('not a file name')


def cases(tier):
    t = tier == 'thorough'
    ln = [1, 3, 6] if t else [1, 3]
    out = []
    for i, ty in enumerate(TYPES):
        out.append(('point_attrs', {'type': ty, 'vary': ['offset', 'len', 'access', 'mandatory'], 'first': i % 2, 'rep': (i // 2) % 2}))
        if t:
            out.append(('point_attrs', {'type': ty, 'vary': ['id', 'offset', 'len', 'access', 'mandatory', 'units', 'sf'], 'lens': [2], 'first': 0, 'rep': 1}))
    for rep in (0, 1):
        for f in (0, 1):
            for v in (['id', 'offset'], ['units', 'sf'], ['sf', 'access'], ['inline'], ['symbols']):
                out.append(('point_attrs', {'type': 'uint16' if rep else 'int64', 'vary': v, 'first': f, 'rep': rep, 'lens': ln}))
    out.append(('point_attrs', {'type': 'enum16', 'vary': ['symbols', 'inline', 'access'], 'lens': [1]}))
    for v in ([], ['name'], ['fname', 'rname'], ['name', 'fname']):
        out.append(('model_attrs', {'vary': v, 'lens': ln}))
    for s in ('m', 'f', 'r', 'fy', 'ry'):
        out.append(('strings', {'sec': s, 'lens': ln}))
        for o in ('before', 'between', 'reversed'):
            out.append(('strings', {'sec': s, 'lens': [1], 'odd': o}))
    out.append(('rejected', {'what': 'point'}))
    out.append(('rejected', {'what': 'block'}))
    for n in (4, 5, 9) if t else (5, 9):
        out.append(('rejected', {'what': 'btype', 'n': n}))
    for n in range(1, 9 if t else 7):
        for w in ('type', 'access', 'mandatory'):
            if w == 'type' and n < 3:
                continue
            out.append(('rejected', {'what': w, 'chars': n}))
    for r in ((0, 9), (10, 99), (100, 999), (1000, 9999), (10000, 65535), (0, 65535)):
        out.append(('filename', {'range': r}))
        out.append(('found', {'range': r}))
    out.append(('back', {}))
    for p in ('pre', 'suf'):
        out.append(('odd', {'part': p}))
    for i in range(5):
        out.append(('odd', {'part': 'mid', 'at': i}))
    out.append(('large', {'sizes': [20, 12], 'at': [0, 9, 10, 19, 20, 31], 'nsym': 12, 'lens': [2]}))
    out.append(('large', {'sizes': [3, 2], 'at': [0, 1, 4], 'nsym': 40, 'lens': [2]}))
    out.append(('large', {'sizes': [60, 1], 'at': [0, 59, 60], 'nsym': 3, 'lens': [2]}))
    out.append(('large', {'sizes': [1, 60], 'at': [0, 1, 60], 'nsym': 1, 'lens': [2]}))
    return out
