"""C29 printing shows every model, block and point once, with its current value"""
from props.lib import *
from props.c24 import A, B, C, NAME, POINTS, SHAPES, World

META = {
    'bounds': {'quick': 'scripting devices of up to 4 models (repeated models, models without name, without repeating block or without definition, 0..2, 11 and 130 repeating elements); every '
                        'value of the integer points and every text of the string points, each point unimplemented in turn, scale factors -2, 0, 1 and unimplemented; before any '
                        'read, after a read, after assigning any value and after a second read that finds the point unimplemented; the devices, models, blocks, points, definitions '
                        'and Modbus maps of the lower layers',
               'thorough': 'as quick with up to 3 repeating elements and two unimplemented points'},
    'outside': 'the exact notation of scaled values',
    'reach': ['empty', 'model', 'block', 'device', 'list', 'unimplemented', 'scaled', 'assigned', 'stale', 'low level', 'definition', 'map', 'unknown', 'text'],
}
GONE = {'uint16': b'\xff\xff', 'int16': b'\x80\0', 'enum16': b'\xff\xff', 'uint32': b'\xff' * 4, 'int64': b'\x80' + b'\0' * 7, 'string': b'\0' * 4, 'acc32': b'\0' * 4}


def fill(cx, w, gone=(), sym=(), sfs=None):
    """concrete implemented values except for the points in sym; the points in gone unimplemented"""
    for i, places in enumerate(w.content):
        for (bi, pid), (e, ad, raw) in list(places.items()):
            key = '%d.%d.%s' % (i, bi, pid)
            t = e['type']
            if t == 'pad':
                raw = b'\x80\0'
            elif t == 'sunssf':
                raw = be16((sfs if sfs is not None else -1) & 0xffff)
            elif key in gone:
                raw = GONE[t]
            elif t == 'string':
                raw = (cx.chars('s' + key, 3, 33, 126) if key in sym else 'xyz').encode('latin-1') + b'\0'
            elif key in sym:
                lo, hi = int_range(t)
                v = cx.int('v' + key, lo, hi)
                raw = encode(t, v)
                cx.assume(cx.not_(cx.same(raw, SENTINEL[t])))
            else:
                raw = encode(t, 3 + 7 * bi + ord(pid[-1]) + 100 * i)
            places[bi, pid] = (e, ad, raw)
            for a, d in regmem(ad, raw).items():
                w.slave.mem[a] = d


class Fixed(object):
    """concrete initial contents, replaced by fill"""

    def __init__(self, cx):
        self.__dict__['cx'] = cx

    def __getattr__(self, k):
        if k == 'int':
            return lambda name, lo, hi: max(lo, min(hi, 1))
        if k == 'chars':
            return lambda name, n, *a, **kw: 'x' * n
        return getattr(self.cx, k)


def texts(cx, places, bi, ids, got, sf=None):
    """the lines of the points of one block; got: the lines printed"""
    from fractions import Fraction
    n = 0
    for pid in ids:
        e, ad, raw = places[bi, pid]
        t = e['type']
        if raw is None or (isinstance(raw, bytes) and raw == GONE.get(t)):
            cx.reach('unimplemented')
            continue
        cx.check(n < len(got), 'every implemented point is printed')
        if t == 'string':
            ln = raw[:-1].decode('latin-1')
            cx.check(cx.same(got[n], pid + ':  ' + ln), 'a point is printed with its name and value')
            cx.reach('text')
        elif 'sf' in e and sf is not None:
            cx.check(got[n][:len(pid) + 3] == pid + ':  ', 'a point is printed with its name and value')
            v = got[n][len(pid) + 3:]
            cx.check(abs(float(v) - decode(t, raw) * 10.0 ** sf) < 1e-6, 'scaled points are printed with the scaled value')
            cx.reach('scaled')
        else:
            cx.check(cx.same(got[n], '%s:  %s' % (pid, str(decode(t, raw)))), 'a point is printed with its name and value')
        n += 1
    cx.check(n == len(got), 'only implemented points are printed, each once')


def block_lines(s):
    """(header, lines) of every block printed: a blank line precedes each header"""
    out = []
    ls = s.split('\n')
    i = 0
    while i < len(ls) - 1:
        if len(ls[i]) == 0:
            out.append((ls[i + 1], []))
            i += 2
        else:
            out[-1][1].append(ls[i])
            i += 1
    return out


def printed(cx, w, d, sf=None, values=True):
    """what the device, its models and blocks print"""
    inst = w.instances(d)
    before = len(w.slave.pdus)
    whole = ''
    order = []
    for name in d.models:
        for i, k, x in sorted([t for t in inst if NAME[t[1]] == name], key=lambda t: t[0]):
            order.append((i, k, x))
    for i, k, x in order:
        s = str(x)
        whole = whole + s
        mid = SHAPES[k].mid if k in SHAPES else 64119
        bl = block_lines(s)
        cx.check(s.endswith('\n'), 'the last line is complete')
        els = w.elements(i, k, x)
        cx.check(len(bl) == len(els), 'every block is printed once')
        cx.check(bl[0][0] == '%s (%d):' % (NAME[k], mid), 'a model is printed with its name and id')
        for (bi, o, ids), (head, lines) in zip(els, bl):
            if bi:
                cx.check(head == '%s[%d]:' % (x.repeating_name, bi), 'a repeating element is printed with the name of the block and its index')
                cx.check(cx.same(str(o), '\n' + '\n'.join([head] + lines) + '\n'), 'a repeating element prints the same alone')
                cx.reach('block')
            if not values:
                cx.check(lines == [], 'points without a value are not printed')
            else:
                texts(cx, w.content[i], bi, ids, lines, sf)
        cx.reach('model')
        if k == 'U':
            cx.reach('unknown')
    s = str(d)
    cx.check(cx.same(s, whole), 'the device prints each of its models once')
    if len(order) > len(d.models):
        cx.reach('list')
    cx.reach('device')
    cx.check(len(w.slave.pdus) == before, 'printing sends no requests')
    cx.check(w.slave.writes == [], 'printing writes nothing')
    for i, k, x in inst:
        cx.check(all(not p.dirty for b in x.model.blocks for p in b.points_list), 'printing modifies nothing')


def make(cx):
    w = World(Fixed(cx), cx.p['seq'], cx.p['reps'])
    w.cx = cx
    return w


def start(cx):
    w = make(cx)
    w2 = w
    fill(cx, w)
    d = w.create(cx.p['link'])
    if cx.choice('when', ['new', 'read']) == 'new':
        printed(cx, w, d, values=False)
        cx.reach('empty')
        d.read()
    else:
        d.read()
    printed(cx, w, d, -1)


def spots(w, strings=True):
    out = []
    for i, places in enumerate(w.content):
        for bi, pid in sorted(places):
            e = places[bi, pid][0]
            if e['type'] not in ('pad', 'sunssf') and (strings or e['type'] != 'string'):
                out.append('%d.%d.%s' % (i, bi, pid))
    return out


def values(cx):
    """one symbolic point, or unimplemented points"""
    w = make(cx)
    mode = cx.p['mode']
    sf = -1
    if mode == 'sym':
        where = cx.choice('spot', [s for s in spots(w) if not scaled(w, s)])
        fill(cx, w, sym=[where])
    elif mode == 'gone':
        sp = spots(w)
        where = [cx.choice('spot%d' % j, sp) for j in range(cx.p.get('n', 1))]
        fill(cx, w, gone=where)
    else:
        sf = cx.choice('sf', [-2, 0, 1, None])
        fill(cx, w, sfs=sf if sf is not None else -32768)
    d = w.create(cx.p['link'])
    d.read()
    printed(cx, w, d, sf)


def scaled(w, s):
    i, bi, pid = s.split('.')
    return 'sf' in w.content[int(i)][int(bi), pid][0]


def stale(cx):
    """printed after an assignment, and after a second read"""
    w = make(cx)
    fill(cx, w)
    d = w.create('tcp')
    d.read()
    where = cx.choice('spot', [s for s in spots(w) if not scaled(w, s)])
    i, bi, pid = where.split('.')
    i, bi = int(i), int(bi)
    e, ad, raw = w.content[i][bi, pid]
    x = [x for j, k, x in w.instances(d) if j == i][0]
    o = x.repeating[bi] if bi else x
    if e['type'] == 'string':
        # an empty text, too, is a value once it has been assigned
        v = cx.chars('t', cx.choice('length', [0, 1, 3]), 33, 126)
        new = v.encode('latin-1') + b'\0'
    else:
        lo, hi = int_range(e['type'])
        v = cx.int('v', lo, hi)
        new = encode(e['type'], v)
        cx.assume(cx.not_(cx.same(new, SENTINEL[e['type']])))
    what = cx.choice('what', ['assign', 'gone', 'other'] if e['type'] != 'string' else ['assign'])
    if what == 'assign':
        setattr(o, pid, v)
        bl = block_lines(str(o))[0][1]
        w.content[i][bi, pid] = (e, ad, new)
        texts(cx, w.content[i], bi, POINTS[w.seq[i]][1 if bi else 0], bl, -1)
        cx.check(len(w.slave.writes) == 0, 'printing writes nothing')
        cx.reach('assigned')
    else:
        raw = GONE[e['type']] if what == 'gone' else new
        w.content[i][bi, pid] = (e, ad, raw)
        w.slave.mem.update(regmem(ad, raw))
        d.read()
        printed(cx, w, d, -1)
        cx.reach('stale')


def lower(cx):
    """the device, model, block and point objects and the definitions"""
    w = make(cx)
    sp = spots(w)
    gone = cx.choice('gone', [None] + sp)
    sym = cx.choice('sym', sp) if gone is None else None
    fill(cx, w, gone=[gone], sym=[sym])
    d = w.create('tcp')
    if cx.p.get('read', 1):
        d.read()
    dev = d.device
    whole = ''
    for i, (k, m) in enumerate(zip(w.seq, dev.models_list)):
        s = str(m)
        whole = whole + s
        lines = s.split('\n')
        cx.check(len(lines[-1]) == 0, 'the last line is complete')
        want = ['Model %s:' % m.id]
        for bi, b in enumerate(m.blocks):
            if bi:
                want.append('Block: type: repeating index: %d:' % bi)
            for p in b.points_list:
                base = p.value_base
                line = 'Point: id = %s impl = %s addr = %s value_base = %s' % (p.point_type.id, str(p.impl), p.addr, str(base))
                ps = str(p)
                cx.check(cx.same(ps[:len(line)], line), 'a point is printed with its id, address and value')
                want.append('  ' + ps)
        cx.check(len(lines) - 1 == len(want), 'every point is printed once')
        cx.check(cx.all([cx.same(a, b) for a, b in zip(lines, want)]), 'a model prints its points and blocks in order')
        for bi, b in enumerate(m.blocks):
            if bi:
                cx.check(cx.same(str(b), '\n'.join(want[want.index('Block: type: repeating index: %d:' % bi):][:1 + len(b.points_list)]) + '\n'), 'a block prints its points')
        cx.reach('low level')
        t = m.model_type
        if t is not None:
            s = str(t).split('\n')
            ids = [p.id for b in (t.fixed_block, t.repeating_block) if b for p in b.points_list]
            at = [ln for ln in s if ln.strip()[:10] == 'PointType:']
            cx.check(len(at) == len(ids) and all(('id = %s ' % n) in ln for n, ln in zip(ids, at)), 'a definition prints its points in order')
            cx.check(('id = %s ' % t.id) in s[0], 'a definition prints its id')
            cx.reach('definition')
    cx.check(cx.same(str(dev), whole), 'the device prints each of its models once')


def maps(cx):
    """Modbus maps print every block"""
    mb = cx.mod('sunspec.core.modbus.mbmap')
    n = cx.choice('n', [0, 1, 2, 3])
    m = mb.ModbusMap(slave_id=cx.int('slave', 1, 247), func='holding', base_addr=cx.int('base', 0, 65535))
    want = []
    off = 0
    for i in range(n):
        off = off + cx.choice('gap%d' % i, [0, 7] if i == 1 else [0])
        count = cx.choice('count%d' % i, [1, 3] if i == 0 else [2])
        m.regs.append(mb.ModbusMapRegs(off, count, b'\0\1' * count, cx.choice('acc%d' % i, ['r', 'rw'])))
        want.append('  offset = %d count = %d access = %s' % (off, count, m.regs[-1].access))
        off = off + count
    s = str(m).split('\n')
    cx.check(cx.same(s[0], 'modbus_map: slave id = %s func = %s base_addr = %s' % (str(m.slave_id), str(m.func), str(m.base_addr))), 'a map prints its slave id, function and base address')
    cx.check(s[1:] == want, 'a map prints every block once, in order')
    cx.reach('map')


def cases(tier):
    th = tier == 'thorough'
    out = []
    seqs = [('A', [2]), ('B', [0]), ('C', [1]), ('AUB', [1, 0, 0]), ('ABA', [1, 0, 2]), ('CC', [1, 1]), ('UAU', [0, 0, 0]), ('CACA', [0, 1, 2, 0]), ('D', [1])]
    if th:
        seqs += [('A', [3]), ('AAA', [0, 1, 2]), ('BAUC', [0, 2, 0, 3])]
    for s, r in seqs:
        out.append(('start', {'seq': list(s), 'reps': r, 'link': 'rtu' if s == 'AUB' else 'tcp'}))
        for mode in ('sym', 'gone', 'sf'):
            out.append(('values', {'seq': list(s), 'reps': r, 'link': 'tcp', 'mode': mode}))
        if th:
            out.append(('values', {'seq': list(s), 'reps': r, 'link': 'tcp', 'mode': 'gone', 'n': 2}))
    for s, r in (('A', [2]), ('B', [0]), ('ABA', [1, 0, 1]), ('D', [2])):
        out.append(('stale', {'seq': list(s), 'reps': r}))
        out.append(('lower', {'seq': list(s), 'reps': r}))
    out.append(('lower', {'seq': list('CUA'), 'reps': [1, 0, 1], 'read': 0}))
    out.append(('lower', {'seq': list('CUA'), 'reps': [1, 0, 1]}))
    out.append(('maps', {}))
    out.append(('values', {'seq': ['C', 'A'], 'reps': [11, 11], 'link': 'tcp', 'mode': 'sf'}))
    out.append(('start', {'seq': ['C', 'A'], 'reps': [11, 11], 'link': 'tcp'}))
    out.append(('values', {'seq': list('ABC') * 4, 'reps': [1, 0, 1] * 4, 'link': 'tcp', 'mode': 'sf'}))
    out.append(('stale', {'seq': ['A'], 'reps': [11]}))
    out.append(('start', {'seq': ['D'], 'reps': [130], 'link': 'tcp'}))
    for s, r in (('A', [11]), ('C', [13]), ('B' * 11, [0] * 11)):
        out.append(('lower', {'seq': list(s), 'reps': r}))
    return out
