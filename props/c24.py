"""C24 the scripting interface reads and writes the same points as the device"""
from props.lib import *

META = {
    'bounds': {'quick': 'devices of up to 4 models in every order over a defined model with 0..2 (and 12, 40, 130) repeating elements, a model without name, a model without repeating block '
                        'and a model without definition; point types int16, uint16, uint32, int64, enum16, string, scaled points and a scale-factor point; every register value '
                        'implemented and every value assigned, also to points that were not implemented or not read yet; attribute and item access; over TCP and RTU',
               'thorough': 'devices of up to 5 models and 0..4 repeating elements'},
    'outside': 'models named like an attribute of the scripting device itself, assigning model items, unknown point names',
    'reach': ['single', 'list', 'unknown', 'unnamed', 'read', 'attribute', 'item', 'write', 'repeating', 'block name', 'closed', 'second device', 'changed definition', 'unset'],
}
BASE = 40000
A = Shape(['uint16', {'type': 'int16', 'sf': 'F3'}, 'pad', 'sunssf', {'type': 'string', 'len': 2}],
          ['int16', {'type': 'uint32', 'sf': 'F3'}, 'pad'], mid=64110, name='alpha', rep_name='unit')
B = Shape(['uint32', 'enum16', 'int64'], mid=64111)
C = Shape(['acc32', 'uint16'], ['uint16', 'sunssf', {'type': 'int16', 'sf': 'R1'}], mid=64112, name='gamma')
# the same point ids in the fixed and the repeating block
D = Shape([{'type': 'uint16', 'id': 'P'}, {'type': 'int16', 'id': 'Q'}, {'type': 'uint32', 'id': 'T'}], [{'type': 'int16', 'id': 'Q'}, {'type': 'uint16', 'id': 'P'}], mid=64113, name='delta')
SHAPES = {'A': A, 'B': B, 'C': C, 'D': D}
NAME = {'A': 'alpha', 'B': 'model_64111', 'C': 'gamma', 'D': 'delta', 'U': 'model_64119'}
POINTS = {'A': (['F0', 'F1', 'F4'], ['R0', 'R1']), 'B': (['F0', 'F1', 'F2'], []), 'C': (['F0', 'F1'], ['R0', 'R2']), 'D': (['P', 'Q', 'T'], ['Q', 'P']), 'U': ([], [])}


class World(object):
    def __init__(self, cx, seq, reps):
        self.cx = cx
        self.seq = seq
        self.reps = [reps[i] if k in 'ACD' else 0 for i, k in enumerate(seq)]
        mem = {BASE: b'Su', BASE + 1: b'nS'}
        a = BASE + 2
        self.addr = []
        self.content = []
        for i, k in enumerate(seq):
            places = {}
            if k == 'U':
                mid, n, regs_ = 64119, 3, {}
            else:
                s = SHAPES[k]
                mid, n = s.mid, s.total(self.reps[i])
                for bi, e, ad in s.places(a + 2, self.reps[i]):
                    if e['type'] == 'sunssf':
                        d = be16(cx.choice('sf%d_%d' % (i, bi), [-2 & 0xffff, 1]) if cx.p.get('sfs') else 0xffff)
                    else:
                        d = None if bi not in (0, self.reps[i]) and self.reps[i] > 4 else implemented(cx, e['type'], 'm%d_%d_%s' % (i, bi, e['id']), e['len'])
                    if d is None:
                        d = b''.join([bytes([1 + bi, 32 + (5 * i + len(places) + j) % 90]) for j in range(e['len'])])
                    places[bi, e['id']] = (e, ad, d)
                    mem.update(regmem(ad, d))
            mem[a], mem[a + 1] = be16(mid), be16(n)
            for j in range(n):
                mem.setdefault(a + 2 + j, b'\0\0')
            self.addr.append(a + 2)
            self.content.append(places)
            a += n + 2
        mem[a] = b'\xff\xff'
        self.slave = Slave(cx, mem)
        self.mem = mem

    def defs(self):
        use_defs(self.cx, dict((s.mid, s.xml()) for s in SHAPES.values()))

    def create(self, link='tcp'):
        cx = self.cx
        client = cx.mod('sunspec.core.client')
        self.defs()
        if link == 'tcp':
            self.net = Net(cx, self.slave.tcp(9)).install()
            return client.SunSpecClientDevice(client.TCP, 9, ipaddr='192.0.2.9')
        self.bus = Bus(cx, self.slave.rtu(9)).install()
        return client.SunSpecClientDevice(client.RTU, 9, '/dev/symx')

    def instances(self, d):
        """(index in the device, kind, scripting model), checking names and lists"""
        cx = self.cx
        out = []
        names = []
        for k in self.seq:
            if NAME[k] not in names:
                names.append(NAME[k])
        cx.check(d.models == names, 'models lists every model name once, in device order')
        for k in sorted(set(self.seq)):
            at = [i for i, x in enumerate(self.seq) if x == k]
            m = getattr(d, NAME[k], None)
            cx.check(d[NAME[k]] is m, 'models are items too')
            if len(at) == 1:
                cx.check(not isinstance(m, list), 'a model that occurs once is the attribute itself')
                found = [m]
                cx.reach('single')
            else:
                cx.check(isinstance(m, list) and len(m) == len(at) + 1 and m[0] is None, 'models that occur several times form a list indexed from 1')
                found = m[1:]
                cx.reach('list')
            for i, x in zip(at, found):
                cx.check(x.model is d.device.models_list[i], 'the models are in device order')
                cx.check(x.name == NAME[k], 'models know their name')
                cx.check(list(x.points) == POINTS[k][0], 'the point names are those of the fixed block')
                cx.check(len(x.repeating) == self.reps[i] + 1 and x.repeating[0] is None, 'repeating elements are indexed from 1')
                for n in range(1, len(x.repeating)):
                    cx.check(x.repeating[n].block is x.model.blocks[n], 'the n-th repeating element')
                    cx.check(list(x.repeating[n].points) == POINTS[k][1], 'the point names are those of the repeating block')
                    cx.reach('repeating')
                if k == 'A' and self.reps[i]:
                    cx.check(x.unit is x.repeating and x.repeating_name == 'unit', 'repeating elements are also found under the name of the block')
                    cx.reach('block name')
                cx.reach('unknown' if k == 'U' else 'unnamed' if k == 'B' else 'single')
                out.append((i, k, x))
        cx.check(getattr(d, 'beta', None) is None, 'no attributes for models that are not there')
        return out

    def elements(self, i, k, x):
        """(block index, scripting object, point ids)"""
        out = [(0, x, POINTS[k][0])]
        for n in range(1, self.reps[i] + 1):
            out.append((n, x.repeating[n], POINTS[k][1]))
        return out

    def same_values(self, d, scaled=True):
        """every attribute and item has the value of its own point"""
        cx = self.cx
        for i, k, x in self.instances(d):
            for bi, o, ids in self.elements(i, k, x):
                for pid in ids:
                    e, ad, raw = self.content[i][bi, pid]
                    v, w = getattr(o, pid), o[pid]
                    if e['type'] == 'string':
                        want = raw[:-1].decode('latin-1') if isinstance(raw, bytes) else None
                        cx.check(cx.same(v, want) and cx.same(w, want), 'strings')
                        continue
                    raw = decode(e['type'], raw)
                    if 'sf' in e and not scaled:
                        continue
                    if 'sf' in e and cx.p.get('sfs'):
                        from fractions import Fraction
                        sfid = e['sf']
                        sfb = bi if (bi, sfid) in self.content[i] else 0
                        sf = decode('sunssf', self.content[i][sfb, sfid][2])
                        cx.check(cx.all([cx.within(v, raw, Fraction(10) ** sf, 0), cx.within(w, raw, Fraction(10) ** sf, 0)]), 'scaled values')
                    elif 'sf' in e:
                        # scale factor -1
                        from fractions import Fraction
                        cx.check(cx.all([cx.within(v, raw, Fraction(1, 10), 0), cx.within(w, raw, Fraction(1, 10), 0)]), 'scaled values')
                    else:
                        cx.check(cx.all([cx.same(v, raw), cx.same(w, raw)]), 'an attribute has the value of its own point')


def structure(cx):
    kinds = cx.p['kinds']
    n = cx.choice('n', cx.p['counts'])
    seq = [cx.choice('k%d' % i, kinds) for i in range(n)]
    reps = [cx.choice('r%d' % i, cx.p['reps']) if k in 'AC' else 0 for i, k in enumerate(seq)]
    w = World(cx, seq, reps)
    d = w.create(cx.p['link'])
    for i, k, x in w.instances(d):
        for bi, o, ids in w.elements(i, k, x):
            for pid in ids:
                cx.check(getattr(o, pid) is None and o[pid] is None, 'points have no value before the first read')
    cx.check(w.slave.writes == [], 'looking changes nothing')


def values(cx):
    w = World(cx, cx.p['seq'], cx.p['reps'])
    d = w.create(cx.p['link'])
    before = dict(w.slave.mem)
    how = cx.choice('read', ['device', 'models', 'second'])
    if how == 'device':
        d.read()
    elif how == 'models':
        for i, k, x in w.instances(d):
            x.read()
    else:
        d.read()
        d.read()
    w.same_values(d)
    cx.check(cx.same(sorted(w.slave.mem), sorted(before)) and w.slave.writes == [], 'reading writes nothing')
    cx.reach('read')


def assign(cx):
    """assign one or two points through the interface and write"""
    w = World(cx, cx.p['seq'], cx.p['reps'])
    d = w.create(cx.p['link'])
    d.read()
    inst = dict((i, (k, x)) for i, k, x in w.instances(d))
    todo = []
    spots = [(i, bi, pid) for i in sorted(inst) for bi, o, ids in w.elements(i, *inst[i]) for pid in ids
             if w.content[i][bi, pid][0]['type'] != 'string' and 'sf' not in w.content[i][bi, pid][0]]
    for j in range(cx.p.get('n', 1)):
        i, bi, pid = cx.choice('spot%d' % j, spots)
        k, x = inst[i]
        o = x if bi == 0 else x.repeating[bi]
        e, ad, raw = w.content[i][bi, pid]
        lo, hi = int_range(e['type'])
        v = cx.int('v%d' % j, lo, hi)
        if e['type'] in SENTINEL:
            cx.assume(cx.not_(cx.same(encode(e['type'], v), SENTINEL[e['type']])))
        if cx.choice('how%d' % j, ['attribute', 'item']) == 'item':
            o[pid] = v
            cx.reach('item')
        else:
            setattr(o, pid, v)
            cx.reach('attribute')
        todo.append((i, bi, pid))
        w.content[i][bi, pid] = (e, ad, encode(e['type'], v))
    w.same_values(d, scaled=False)
    for i in inst:
        k, x = inst[i]
        for bi, b in enumerate(x.model.blocks):
            for p in b.points_list:
                cx.check(bool(p.dirty) == ((i, bi, p.point_type.id) in todo), 'exactly the assigned points are modified')
    for i in inst:
        inst[i][1].write()
    want = {}
    for i, bi, pid in todo:
        e, ad, raw = w.content[i][bi, pid]
        want.update(regmem(ad, raw))
    cx.check(sorted(set(a for a, v in w.slave.writes)) == sorted(want), 'exactly the assigned points are written')
    for a in want:
        cx.check(cx.same(w.slave.mem[a], want[a]), 'the device holds the assigned value')
    # read back
    for i in inst:
        inst[i][1].read()
    w.same_values(d, scaled=False)
    cx.reach('write')


def assign_unset(cx):
    """assign a point that the device does not implement so far"""
    w = World(cx, cx.p['seq'], cx.p['reps'])
    d = w.create('tcp')
    inst = dict((i, (k, x)) for i, k, x in w.instances(d))
    spots = [(i, bi, pid) for i in sorted(inst) for bi, o, ids in w.elements(i, *inst[i]) for pid in ids
             if 'sf' not in w.content[i][bi, pid][0] and w.content[i][bi, pid][0]['type'] not in ('string', 'acc32')]
    i, bi, pid = cx.choice('spot', spots)
    k, x = inst[i]
    e, ad, raw = w.content[i][bi, pid]
    w.slave.mem.update(regmem(ad, SENTINEL[e['type']]))
    twice = cx.choice('before', [0, 1])
    if not twice:
        d.read()
    o = x if bi == 0 else x.repeating[bi]
    cx.check(getattr(o, pid) is None and o[pid] is None, 'a point that is not implemented is None')
    lo, hi = int_range(e['type'])
    v = cx.int('v', lo, hi)
    cx.assume(cx.not_(cx.same(encode(e['type'], v), SENTINEL[e['type']])))
    if cx.choice('how', [0, 1]):
        o[pid] = v
    else:
        setattr(o, pid, v)
    cx.check(cx.all([cx.same(getattr(o, pid), v), cx.same(o[pid], v)]), 'the assigned value is there')
    x.write()
    want = regmem(ad, encode(e['type'], v))
    cx.check(sorted(set(a for a, b in w.slave.writes)) == sorted(want), 'exactly the assigned points are written')
    for a in want:
        cx.check(cx.same(w.slave.mem[a], want[a]), 'the device holds the assigned value')
    x.read()
    cx.check(cx.all([cx.same(getattr(o, pid), v), cx.same(o[pid], v)]), 'an attribute has the value of its own point')
    cx.reach('unset')


def scaled(cx):
    """scaled points take the raw value nearest to the assigned one"""
    from fractions import Fraction
    w = World(cx, cx.p['seq'], cx.p['reps'])
    d = w.create('tcp')
    d.read()
    inst = dict((i, (k, x)) for i, k, x in w.instances(d))
    spots = [(i, bi, pid) for i in sorted(inst) for bi, o, ids in w.elements(i, *inst[i]) for pid in ids if 'sf' in w.content[i][bi, pid][0] and w.content[i][bi, pid][0]['type'] == 'int16']
    i, bi, pid = cx.choice('spot', spots)
    k, x = inst[i]
    o = x if bi == 0 else x.repeating[bi]
    e, ad, raw = w.content[i][bi, pid]
    # double the value is read as is; its own value assigned leaves the register
    v = getattr(o, pid)
    if cx.choice('how', [0, 1]):
        o[pid] = v
    else:
        setattr(o, pid, v)
    x.write()
    cx.check(sorted(set(a for a, v in w.slave.writes)) == sorted(regmem(ad, raw)), 'exactly the assigned point is written')
    cx.check(cx.same(b''.join([w.slave.mem[a] for a in sorted(regmem(ad, raw))]), raw), 'assigning the value that was read leaves the registers as they were')


def closing(cx):
    w = World(cx, cx.p['seq'], [1] * 4)
    d = w.create(cx.p['link'])
    d.read()
    d.close()
    if cx.p['link'] == 'tcp':
        cx.check(all(c.closed for c in w.net.conns), 'closing the scripting device closes its connections')
    else:
        cx.check(all(not p.is_open for p in w.bus.ports), 'closing the scripting device closes its port')
    cx.reach('closed')
    # a device that cannot be scanned is closed again
    client = cx.mod('sunspec.core.client')
    if cx.p['link'] == 'tcp':
        net = Net(cx, lambda req: req[:4] + be16(3) + req[6:7] + be8(req[7] | 0x80) + be8(2)).install()
        r, e = cx.raises(lambda: client.SunSpecClientDevice(client.TCP, 9, ipaddr='192.0.2.9'), client.SunSpecClientError)
        cx.check(e is not None and all(c.closed for c in net.conns), 'a device that is no SunSpec device is closed and reported')
    else:
        bus = Bus(cx, lambda req: rtu_frame(req[:1] + be8(req[1] | 0x80) + be8(2))).install()
        r, e = cx.raises(lambda: client.SunSpecClientDevice(client.RTU, 9, '/dev/symx'), client.SunSpecClientError)
        cx.check(e is not None and all(not p.is_open for p in bus.ports), 'a device that is no SunSpec device is closed and reported')


def two(cx):
    """two scripting devices with models of the same id are independent"""
    w1 = World(cx, cx.p['seq'], cx.p['reps'])
    d1 = w1.create('tcp')
    d1.read()
    cx2 = Prefixed(cx, 'z')
    w2 = World(cx2, cx.p['seq2'], cx.p['reps2'])
    d2 = w2.create('tcp')
    d2.read()
    w2.same_values(d2)
    w1.same_values(d1)
    cx.reach('second device')
    k = cx.p['seq'][0]
    m1, m2 = getattr(d1, NAME[k]), getattr(d2, NAME[k])
    v = cx.int('v', 0, 65534)
    m1.F0 = v
    cx.check(cx.same(m1.F0, v), 'the assigned value is there')
    w2.same_values(d2)


def changed(cx):
    """a definition that appears, changes or disappears between two devices of one program"""
    client = cx.mod('sunspec.core.client')
    mid = 64140
    S = {'x': Shape(['uint16', 'int16'], ['uint16', 'pad'], mid=mid, name='x'), 'y': Shape(['pad', {'type': 'uint16', 'id': 'Other'}, 'enum16'], None, mid=mid, name='y'),
         'z': Shape(['int16'], [{'type': 'int16', 'id': 'More'}, 'pad'], mid=mid, name='z'), None: None}
    order = cx.p['order']
    for n, k in enumerate(order):
        s = S[k]
        use_defs(cx, {mid: s.xml()} if s else {})
        reps = cx.choice('reps%d' % n, [0, 1, 2]) if s and s.rep else 0
        mem = {BASE: b'Su', BASE + 1: b'nS', BASE + 2: be16(mid), BASE + 3: be16(s.total(reps) if s else 3)}
        want = {}
        if s:
            for bi, e, ad in s.places(BASE + 4, reps):
                d = implemented(cx, e['type'], 'v%d_%d_%s' % (n, bi, e['id']), e['len'])
                mem.update(regmem(ad, d))
                if e['type'] != 'pad':
                    want[bi, e['id']] = decode(e['type'], d)
        last = BASE + 4 + (s.total(reps) if s else 3)
        for a in range(BASE + 4, last):
            mem.setdefault(a, b'\0\0')
        mem[last] = b'\xff\xff'
        Net(cx, Slave(cx, mem).tcp(9)).install()
        d = client.SunSpecClientDevice(client.TCP, 9, ipaddr='192.0.2.9')
        d.read()
        name = k if k else 'model_%d' % mid
        cx.check(d.models == [name], 'models lists every model name once, in device order')
        m = getattr(d, name)
        cx.check(list(m.points) == [i for b, i in want if b == 0], 'the point names are those of the definition the device was created with')
        cx.check(len(m.repeating) == reps + 1, 'repeating elements are indexed from 1')
        for (bi, i), v in want.items():
            o = m.repeating[bi] if bi else m
            cx.check(cx.all([cx.same(getattr(o, i), v), cx.same(o[i], v)]), 'an attribute has the value of its own point')
        for bi in range(1, reps + 1):
            cx.check(list(m.repeating[bi].points) == [i for b, i in want if b == bi], 'the point names are those of the repeating block')
    cx.reach('changed definition')


class Prefixed(object):
    """the same context with other variable names"""

    def __init__(self, cx, pre):
        self.__dict__['cx'] = cx
        self.__dict__['pre'] = pre

    def __getattr__(self, k):
        f = getattr(self.cx, k)
        if k in ('int', 'bytes', 'choice', 'chars'):
            return lambda name, *a, **kw: f(self.pre + name, *a, **kw)
        return f


def cases(tier):
    t = tier == 'thorough'
    out = []
    for kinds in ('ABU', 'AC', 'BU'):
        for link in ('tcp', 'rtu'):
            out.append(('structure', {'kinds': list(kinds), 'counts': [0, 1, 2, 3], 'reps': [0, 1] if t else [1], 'link': link}))
    out.append(('structure', {'kinds': ['A', 'C'], 'counts': [1, 2], 'reps': [0, 1, 2] + ([3, 4] if t else []), 'link': 'tcp'}))
    out.append(('structure', {'kinds': ['A', 'B'], 'counts': [4, 5] if t else [4], 'reps': [1], 'link': 'tcp'}))
    for seq, reps in (('A', [2]), ('B', [0]), ('C', [2]), ('AUB', [1, 0, 0]), ('ABA', [1, 0, 2]), ('CC', [1, 1]), ('CAC', [0, 1, 2]), ('D', [2]), ('DAD', [1, 1, 0])):
        for link in ('tcp', 'rtu'):
            out.append(('values', {'seq': list(seq), 'reps': reps, 'link': link}))
            out.append(('assign', {'seq': list(seq), 'reps': reps, 'link': link}))
        if seq not in ('B', 'D'):
            out.append(('values', {'seq': list(seq), 'reps': reps, 'link': 'tcp', 'sfs': 1}))
        out.append(('assign_unset', {'seq': list(seq), 'reps': reps}))
        if seq[0] == 'A':
            out.append(('scaled', {'seq': list(seq), 'reps': reps}))
    for seq, reps in (('A', [2]), ('AA', [0, 1]), ('C', [1])):
        out.append(('assign', {'seq': list(seq), 'reps': reps, 'link': 'tcp', 'n': 2}))
    for link in ('tcp', 'rtu'):
        out.append(('closing', {'seq': list('AB'), 'link': link}))
    for o in ('xy', 'yx', 'xz', 'zx', 'yz', 'xyz', 'zxx'):
        out.append(('changed', {'order': list(o)}))
    for o in ([None, 'x'], ['x', None], [None, 'x', None, 'z']):
        out.append(('changed', {'order': o}))
    out.append(('two', {'seq': ['A'], 'reps': [1], 'seq2': ['A'], 'reps2': [2]}))
    out.append(('two', {'seq': ['C', 'U'], 'reps': [1, 0], 'seq2': ['A', 'C'], 'reps2': [1, 0]}))
    for link in ('tcp', 'rtu'):
        out.append(('values', {'seq': ['A', 'C'], 'reps': [12, 11], 'link': link}))
        out.append(('assign', {'seq': ['C', 'A'], 'reps': [11, 12], 'link': link}))
    out.append(('values', {'seq': list('ABUC') * 3, 'reps': [1, 0, 0, 1] * 3, 'link': 'tcp'}))
    out.append(('assign', {'seq': list('AB') * 6, 'reps': [1, 0] * 6, 'link': 'tcp'}))
    out.append(('scaled', {'seq': ['A'], 'reps': [12]}))
    out.append(('values', {'seq': ['D'], 'reps': [130], 'link': 'tcp'}))
    out.append(('assign', {'seq': ['D'], 'reps': [40], 'link': 'tcp'}))
    return out
