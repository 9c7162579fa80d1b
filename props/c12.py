"""C12 scan finds exactly the device's models, in order, at any base address"""
from props.lib import *

META = {
    'bounds': {'quick': 'maps of 0..3 models with every model id 0..65534 (and the end id), every length 0..5 (and 8, 65, 66, 123..126, 130, 300), every register value; '
                        'chains of 12, 30 and 135 models; definitions present for two or three ids; the candidate addresses 40000, 0, 50000 each missing, holding any 6 bytes or the map; any custom '
                        'base address 0..60000; any single read failing or answered with 0, 1, 2, 4 or 8 bytes instead; over a fake device, RTU, TCP and mapped devices',
               'thorough': 'as quick with up to 4 models and two scans after faults'},
    'outside': 'device-reported length 0 for defined models; repeating blocks defined with length 0',
    'reach': ['found', 'unknown model', 'inconsistent model', 'no marker', 'fault', 'rescan', 'loaded', 'aborted', 'wrong length', 'rtu', 'tcp', 'mapped', 'pause'],
}

DEFS = {1: model_xml(1, 3, [block([point('A', 'uint16', 0), point('B', 'int16', 1), point('P', 'pad', 2)], 3)]),
        64001: model_xml(64001, 3, [block([point('A', 'uint16', 0)], 1), block([point('R', 'uint16', 0), point('S', 'sunssf', 1)], 2, 'repeating')])}
SHAPE = {1: lambda n: n >= 3, 64001: lambda n: n >= 1 and (n - 1) % 2 == 0}


class RelModbus(FakeModbus):
    """FakeModbus whose register addresses are relative to a possibly symbolic origin"""

    def __init__(self, cx, mem, origin):
        FakeModbus.__init__(self, cx, mem)
        self.origin = origin

    def read(self, addr, count, op=None):
        return FakeModbus.read(self, addr - self.origin, count, op)


def layout(cx, models, origin=0, tail=0):
    """registers of a map: models = [(id, length)]"""
    mem = {origin: b'Su', origin + 1: b'nS'}
    a = origin + 2
    info = []
    for i, (mid, n) in enumerate(models):
        mem[a] = be16(mid)
        mem[a + 1] = be16(n)
        for k in range(n):
            mem[a + 2 + k] = cx.bytes('m%d_%d' % (i, k), 2) if n < 9 else b'\0\1'
        info.append((mid, a + 2, n))
        a += n + 2
    mem[a] = b'\xff\xff'
    end = a
    for k in range(tail):
        mem[a + 1 + k] = [b'\0\0', b'\0\1', b'\0\1', b'\0\2'][k % 4]
    return mem, info, end


def check_found(cx, d, info, base):
    cx.check(cx.same(d.base_addr, base), 'the base address is recorded')
    cx.check(len(d.models_list) == len(info), 'exactly the models of the map are listed')
    for m, (mid, addr, n) in zip(d.models_list, info):
        cx.check(cx.all([cx.same(m.id, mid), m.addr == addr]), 'models are listed in order with their id and address')
        mid = cx.fork(mid) if not cx.native and any(mid == k for k in DEFS) else mid
        if n or mid not in DEFS:
            cx.check(m.len == n, 'models are listed with their length')
        if mid not in DEFS:
            cx.reach('unknown model')
            cx.check(m.load_error is not None, 'a model without a definition is flagged')
        elif n and SHAPE[mid](n):
            cx.check(not m.load_error, 'a consistent model is loaded')
            cx.check(len(m.blocks) == (1 if mid == 1 else 1 + (n - 1) // 2), 'a consistent model has its blocks')
            cx.reach('loaded')
        elif n:
            cx.check(m.load_error is not None, 'a model that does not fit its definition is flagged')
            cx.reach('inconsistent model')
    # the models dictionary holds the same models grouped by id
    tot = 0
    for k in d.models:
        for m in d.models[k]:
            cx.check(cx.all([m.id == k, cx.any([m is x for x in d.models_list])]), 'models by id')
            tot += 1
    cx.check(tot == len(info), 'models by id')
    cx.reach('found')


def models_of(cx, p):
    out = []
    for i, (mid, lens) in enumerate(p):
        if mid == 'any':
            mid = cx.int('id%d' % i, 0, 65534)
        elif mid == 'known':
            mid = cx.choice('id%d' % i, sorted(DEFS))
        out.append((mid, cx.choice('len%d' % i, lens)))
    return out


def found(cx):
    use_defs(cx, DEFS)
    base = cx.choice('base', cx.p['bases'])
    mem, info, end = layout(cx, models_of(cx, cx.p['models']), base, cx.p.get('tail', 0))
    d = client_device(cx, mem)
    pace = cx.choice('pace', cx.p.get('paces', [{}]))
    del stubs.state.slept[:]
    d.scan(**pace)
    slept = list(stubs.state.slept)
    cx.check(all(s == pace.get('delay') for s in slept), 'pauses are as long as asked for')
    if 'delay' in pace:
        cx.check(len(slept) >= len(info) - 1, 'a pause is made between models')
        cx.reach('pause')
    check_found(cx, d, info, base)
    last = max([a + n - 1 for k, a, n in d.modbus_device.log if base <= a < base + 1000] + [0])
    cx.check(last <= end or (last <= end + 1 and not cx.p.get('tail')), 'nothing past the end marker is read')
    if cx.p.get('twice'):
        d.scan()
        check_found(cx, d, info, base)
        cx.reach('rescan')


def anybase(cx):
    """any candidate base address"""
    client = cx.mod('sunspec.core.client')
    use_defs(cx, DEFS)
    base = cx.int('base', 0, 60000)
    mem, info, end = layout(cx, models_of(cx, cx.p['models']))
    d = client.ClientDevice(None)
    d.modbus_device = RelModbus(cx, mem, base)
    other = cx.int('other', 0, 60000)
    if cx.p['list'] == 'one':
        d.base_addr_list = [base]
    elif cx.p['list'] == 'known':
        d.base_addr = base
    else:
        cx.assume(cx.any([other + 3 <= base, other > base + end]))
        d.base_addr_list = [other, base] if cx.p['list'] == 'second' else [base, other]
        d.modbus_device.origin = base
        # reads outside the map are errors

        def rd(addr, count, op=None, inner=d.modbus_device.read):
            modbus = cx.mod(MODBUS)
            if bool(cx.any([addr < base, addr + count > base + end + 1])):
                raise modbus.ModbusClientException('Modbus exception 2')
            return inner(addr, count, op)
        d.modbus_device.read = rd
    d.scan()
    check_found(cx, d, [(a, base + b, c) for a, b, c in info], base)


def candidates(cx):
    """each candidate address is an error, arbitrary bytes or the map"""
    client = cx.mod('sunspec.core.client')
    use_defs(cx, DEFS)
    mem = {}
    want = None
    kinds = []
    for i, b in enumerate((40000, 0, 50000)):
        kind = cx.choice('at%d' % b, ['missing', 'bytes', 'map'])
        kinds.append(kind)
        if kind == 'bytes':
            d6 = cx.bytes('junk%d' % b, 6)
            for k in range(3):
                mem[b + k] = d6[2 * k:2 * k + 2]
            cx.assume(cx.not_(d6[:4] == b'SunS'))
        elif kind == 'map':
            m, info, end = layout(cx, [(1 + i, 3)] if cx.p['n'] else [], b)
            mem.update(m)
            if want is None:
                want = (b, info)
    d = client_device(cx, mem)
    r, e = cx.raises(d.scan, client.SunSpecClientError)
    if want is None:
        cx.check(e is not None, 'no marker at any candidate address raises SunSpecClientError')
        cx.check(d.models_list == [], 'nothing is listed')
        cx.reach('no marker')
        # once the map is there, scan finds it
        m, info, end = layout(cx, [(1, 3)], 50000)
        mem.update(m)
        d.scan()
        check_found(cx, d, info, 50000)
        return
    cx.check(e is None, 'the map is found')
    check_found(cx, d, want[1], want[0])


def marker(cx):
    """the map is recognised exactly by the four marker bytes"""
    client = cx.mod('sunspec.core.client')
    use_defs(cx, DEFS)
    m4 = cx.bytes('marker', 4)
    known = cx.choice('known', [0, 1])
    mem = {0: m4[:2], 1: m4[2:], 2: b'\xff\xff'}
    d = client_device(cx, mem)
    if known:
        d.base_addr = 0
    r, e = cx.raises(d.scan, client.SunSpecClientError)
    cx.check(cx.iff(m4 == b'SunS', e is None), 'a map is recognised exactly by its marker')
    if e is None:
        check_found(cx, d, [], 0)


def faults(cx):
    """any read failing: SunSpecClientError, and scanning again finds everything"""
    client = cx.mod('sunspec.core.client')
    modbus = cx.mod(MODBUS)
    use_defs(cx, DEFS)
    mem, info, end = layout(cx, models_of(cx, cx.p['models']), 40000)
    d = client_device(cx, mem)
    at = cx.int('fault', 0, 2 * len(info))
    exc = cx.choice('exc', [modbus.ModbusClientTimeout, modbus.ModbusClientError, modbus.ModbusClientException] + cx.p.get('sizes', [0, 1, 2, 4, 8]))

    def fault(kind, i):
        if i == at:
            if isinstance(exc, int):
                # an answer with another number of bytes
                want = 2 * d.modbus_device.log[-1][2]
                cx.assume(exc != want)
                cx.reach('wrong length')
                return b'SunS' + cx.bytes('more', exc - 4) if exc >= 4 else cx.bytes('few', exc)
            raise exc('fault')
    d.modbus_device.fault = fault
    r, e = cx.raises(d.scan, client.SunSpecClientError)
    cx.check(e is not None, 'a failing read makes scan raise SunSpecClientError')
    d.modbus_device.fault = None
    d.scan()
    check_found(cx, d, info, 40000)
    cx.reach('fault')


def progress(cx):
    client = cx.mod('sunspec.core.client')
    use_defs(cx, DEFS)
    mem, info, end = layout(cx, models_of(cx, cx.p['models']), 40000)
    d = client_device(cx, mem)
    stop = cx.int('stop', 0, len(info))
    calls = []

    def prog(msg):
        calls.append(msg)
        return not bool(len(calls) - 1 == stop)
    r, e = cx.raises(lambda: d.scan(progress=prog), client.SunSpecClientError)
    if stop < len(info):
        cx.check(e is not None, 'a scan stopped by the caller raises SunSpecClientError')
        cx.reach('aborted')
    else:
        cx.check(e is None and len(calls) == len(info), 'progress is reported once per model')
        check_found(cx, d, info, 40000)


def end_to_end(cx):
    """the same over the real Modbus layers"""
    client = cx.mod('sunspec.core.client')
    use_defs(cx, DEFS)
    base = cx.choice('base', [40000, 0, 50000])
    mem, info, end = layout(cx, models_of(cx, cx.p['models']), base)
    how = cx.p['how']
    if how == 'rtu':
        Bus(cx, Slave(cx, mem).rtu(7)).install()
        d = client.ClientDevice(client.RTU, 7, '/dev/ttyX')
    elif how == 'tcp':
        Net(cx, Slave(cx, mem).tcp(7)).install()
        d = client.ClientDevice(client.TCP, 7, ipaddr='h', ipport=502)
    else:
        x = '<mbmap addr="' + str(base) + '">'
        for a in sorted(mem):
            x += '<regs offset="%d" access="rw">' % (a - base) + mem[a].hex() + '</regs>'
        d = client.ClientDevice(client.MAPPED, 7, 'map.xml', Defs({'map.xml': x + '</mbmap>'}))
    d.scan()
    check_found(cx, d, info, base)
    d.scan()
    check_found(cx, d, info, base)
    cx.reach(how)


def cases(tier):
    t = tier == 'thorough'
    L = [1, 2, 3, 4, 5]
    bases = [40000, 0, 50000]
    out = [('marker', {}), ('candidates', {'n': 0}), ('candidates', {'n': 1})]
    out.append(('found', {'models': [], 'bases': bases, 'tail': 4}))
    for ms in ([], [('known', [3])], [('any', [2]), ('known', [3])], [(1, [3]), (64001, [4]), ('any', [2])]):
        for tail in (0, 4):
            out.append(('found', {'models': ms, 'bases': bases, 'tail': tail, 'paces': [{'delay': 0}, {'delay': 0.01}, {'delay': 1}]}))
    out.append(('found', {'models': [], 'bases': bases, 'twice': 1}))
    for n in (0,) + tuple(L) + (8, 65, 66, 123, 124, 125, 126, 130, 300):
        out.append(('found', {'models': [('any', [n])], 'bases': [40000], 'tail': 4, 'twice': 1}))
        out.append(('found', {'models': [('any', [n]), (1, [3])], 'bases': [50000]}))
    for ids in (('any', 'any'), ('any', 1, 'any'), (1, 'any', 64001), (1, 'any', 1)):
        out.append(('found', {'models': [(i, [1, 3]) for i in ids], 'bases': [40000], 'tail': 4}))
    out.append(('found', {'models': [('known', L)] * 2, 'bases': bases, 'tail': 2}))
    out.append(('found', {'models': [('any', [1, 2])] * 3, 'bases': [0]}))
    out.append(('found', {'models': [(1, [3]), ('known', [3]), ('known', [1, 3]), (1, [3])], 'bases': bases, 'twice': 1}))
    for l in ('one', 'known', 'first', 'second'):
        out.append(('anybase', {'models': [], 'list': l}))
        out.append(('anybase', {'models': [('known', [3])], 'list': l}))
        out.append(('anybase', {'models': [('any', [2]), ('known', [3])], 'list': l}))
    for m in ([], [('known', [3])], [('known', [3]), ('any', [1, 2])], [(1, [3]), (5, [2]), (64001, [3])]):
        out.append(('faults', {'models': m}))
        out.append(('progress', {'models': m}))
    for how in ('rtu', 'tcp', 'mapped'):
        out.append(('end_to_end', {'how': how, 'models': [('known', [1, 3])]}))
        out.append(('end_to_end', {'how': how, 'models': [('any', [2]), ('known', [3])]}))
    if t:
        out.append(('found', {'models': [('any', L)] * 2, 'bases': bases, 'tail': 4, 'twice': 1}))
        out.append(('found', {'models': [('any', [1, 2, 3])] * 3, 'bases': bases, 'tail': 4, 'twice': 1}))
        out.append(('found', {'models': [('any', [1, 3])] * 4, 'bases': [0]}))
        out.append(('faults', {'models': [('any', [1, 2, 3])] * 2}))
        out.append(('faults', {'models': [('any', [3])] * 3}))
    chain = [(1, [3]), (64001, [21]), ('any', [2]), (64001, [201]), (7, [1]), (1, [66]), (64002, [0]), (1, [65]), ('known', [3]), (64001, [126]), (1, [2]), (64001, [3])]
    out.append(('found', {'models': chain, 'bases': bases, 'tail': 4, 'twice': 1, 'paces': [{}, {'delay': 0.5}]}))
    out.append(('found', {'models': [(1, [3]), (64001, [3]), (9, [2])] * 10, 'bases': [40000], 'tail': 4}))
    out.append(('found', {'models': [(1, [3]), (64001, [3]), (9, [2])] * 45, 'bases': [40000], 'tail': 4}))
    out.append(('faults', {'models': [(1, [3]), (64001, [21]), (7, [1])] * 4}))
    out.append(('progress', {'models': [(1, [3]), (64001, [21]), (7, [1])] * 4}))
    return out
