"""C17 a failed write never loses a modification"""
from props.lib import *
from props.c16 import setup, new_value, pick, written

META = {
    'bounds': {'quick': 'models of up to 8 points in a fixed block and up to 3 repeating blocks; every subset of up to 6 points modified; a failure (client error, '
                        'timeout, exception response) at every write request, before or after the device executes it, followed by up to two further failing attempts at every request; over TCP and RTU, '
                        'with up to 200 registers modified at once; values that '
                        'cannot be encoded at any modified point; single point writes; all values of the integer types',
               'thorough': 'as quick with every subset of up to 8 points and three failing attempts'},
    'outside': 'a read between failure and retry',
    'reach': ['end to end', 'failed', 'retried', 'failed twice', 'partly written', 'encode failure', 'single failed', 'no failure'],
}


def state(cx, m, d, mem, sel, exp, pts, log):
    """every modified point whose registers were not written since is still marked modified"""
    done = dict(written([l for l, ok in log if ok]))
    for bi, e, a in pts:
        p = the_point(m, bi, e)
        if (bi, e['id']) in exp:
            r = exp[(bi, e['id'])]
            if not all(x in done for x in r):
                cx.check(p.dirty, 'a modified point that was not written is still marked modified')
                cx.check(cx.same(p.value_base, sel[(bi, e['id'])]), 'a modified point that was not written keeps its new value')
            else:
                cx.check(cx.all([cx.same(mem[x], r[x]) for x in r]), 'a written point holds its new value in the device')
        else:
            cx.check(not p.dirty, 'an unmodified point is not marked modified')


def faults(cx):
    client = cx.mod('sunspec.core.client')
    modbus = cx.mod(MODBUS)
    kinds = [modbus.ModbusClientError, modbus.ModbusClientTimeout, modbus.ModbusClientException]
    n, base = cx.p.get('n', 0), 500
    sh = Shape(cx.p['fixed'], cx.p.get('rep'))
    d, m, mem = setup(cx, sh, n, base)
    mem0 = dict(mem)
    pts, sel = pick(cx, sh, n, base, 0, cx.p.get('limit', 6))
    exp, vals = {}, {}
    for bi, e, a in sel:
        v, data = new_value(cx, e, '%s_%d' % (e['id'], bi))
        the_point(m, bi, e).value = v
        exp[(bi, e['id'])] = regmem(a, data)
        vals[(bi, e['id'])] = the_point(m, bi, e).value_base
    log = []
    fm = d.modbus_device
    failed = 0
    for attempt in range(cx.p.get('attempts', 1)):
        at = [None]
        start = len(fm.log)
        kind = kinds[(attempt + cx.p.get('kind', 0)) % 3]

        def fault(k, i):
            if at[0] is None and cx.choice('fail_%d_%d' % (attempt, i - start), [0, 1]):
                at[0] = i
            if at[0] is not None:
                raise kind('injected')
        if cx.p.get('late'):
            fm.late = fault
        else:
            fm.fault = fault
        r, e = cx.raises(m.write_points, client.SunSpecClientError)
        fm.fault = fm.late = None
        for i in range(start, len(fm.log)):
            log.append((fm.log[i], at[0] is None or i < at[0]))
        if at[0] is not None:
            failed += 1
            cx.check(e is not None, 'a failed write is reported')
            cx.reach('failed')
            if at[0] > start:
                cx.reach('partly written')
        else:
            cx.check(e is None, 'a write without a fault succeeds')
            cx.reach('no failure')
        state(cx, m, d, mem, vals, exp, pts, log)
        if at[0] is None:
            break
    if failed > 1:
        cx.reach('failed twice')
    if failed:
        m.write_points()
        cx.reach('retried')
    want = dict(mem0)
    for r in exp.values():
        want.update(r)
    cx.check(sorted(mem) == sorted(want) and cx.all([cx.same(mem[a], want[a]) for a in sorted(want)]),
             'after the fault is gone the device holds every modified value')
    cx.check(not any(the_point(m, bi, e).dirty for bi, e, a in pts), 'no point is marked modified after a successful write')


def end_to_end(cx):
    """the same over the real Modbus layers, with a run of registers longer than a request"""
    client = cx.mod('sunspec.core.client')
    n, base = cx.p.get('n', 0), 500
    sh = Shape(cx.p['fixed'], cx.p.get('rep'))
    use_defs(cx, {sh.mid: sh.xml()})
    mem = dict((a, be16(7)) for a in range(base - 3, base + sh.total(n) + 3))
    slave = Slave(cx, mem)
    if cx.p['link'] == 'tcp':
        net = Net(cx, slave.tcp(7)).install()
        d = client.ClientDevice(client.TCP, 7, ipaddr='h', ipport=502)
    else:
        net = Bus(cx, slave.rtu(7)).install()
        d = client.ClientDevice(client.RTU, 7, '/dev/ttyX')
    m = load_model(cx, sh.mid, base, sh.total(n), d)
    pts = [(bi, e, a) for bi, e, a in sh.places(base, n) if e['type'] not in ('pad', 'sunssf')]
    exp = {}
    v = cx.int('v', 0, 65000)
    for k, (bi, e, a) in enumerate(pts):
        p = the_point(m, bi, e)
        if e['type'] == 'string':
            p.value = 'a%d' % k
            data = ('a%d' % k).encode() + b'\0' * (2 * e['len'] - len('a%d' % k))
        else:
            w = v if k == len(pts) - 1 else 100 + k
            p.value = w
            data = encode(e['type'], w)
        exp[(bi, e['id'])] = regmem(a, data)
    at = cx.choice('at', cx.p['at'])
    seen = []
    inner = net.answer_fn

    def answer(req):
        seen.append(req)
        r = inner(req) if len(seen) - 1 != at or cx.p.get('late') else None
        return r if len(seen) - 1 != at else None
    net.answer_fn = answer
    r, e = cx.raises(m.write_points, client.SunSpecClientError)
    if len(seen) <= at:
        cx.check(e is None, 'a write without a fault succeeds')
    else:
        cx.check(e is not None, 'a failed write is reported')
        for bi, en, a in pts:
            x = exp[(bi, en['id'])]
            if not all(bool(mem[i] == x[i]) for i in x):
                cx.check(the_point(m, bi, en).dirty, 'a modified point that was not written is still marked modified')
        m.write_points()
    want = {}
    for x in exp.values():
        want.update(x)
    cx.check(cx.all([cx.same(mem[a], want.get(a, be16(7))) for a in sorted(mem)]), 'after the fault is gone the device holds every modified value')
    cx.check(not any(the_point(m, bi, en).dirty for bi, en, a in pts), 'no point is marked modified after a successful write')
    cx.reach('end to end')


def encode_failure(cx):
    """a value that cannot be encoded: error, nothing lost, and the write works once it is corrected"""
    n, base = cx.p.get('n', 0), 500
    sh = Shape(cx.p['fixed'], cx.p.get('rep'))
    d, m, mem = setup(cx, sh, n, base)
    mem0 = dict(mem)
    pts, sel = pick(cx, sh, n, base, 0, cx.p.get('limit', 5))
    ints = [x for x in sel if x[1]['type'] in INT_TYPES and x[1]['type'] != 'sunssf']
    if not ints:
        return
    bad = cx.choice('bad', ints)
    exp, vals = {}, {}
    for x in sel:
        bi, e, a = x
        v, data = new_value(cx, e, '%s_%d' % (e['id'], bi))
        exp[(bi, e['id'])] = regmem(a, data)
        p = the_point(m, bi, e)
        if x is bad:
            lo, hi = int_range(e['type'])
            over = cx.int('over', 1, 1 << 40)
            p.value = hi + over if cx.choice('side', [0, 1]) else lo - over
            good = v
        else:
            p.value = v
        vals[(bi, e['id'])] = p.value_base
    start = len(d.modbus_device.log)
    single = cx.choice('op', [0, 1])
    bp = the_point(m, bad[0], bad[1])
    r, e = cx.raises(bp.write if single else m.write_points, Exception)
    cx.check(e is not None, 'a value that cannot be encoded is an error')
    state(cx, m, d, mem, vals, exp, pts, [(l, True) for l in d.modbus_device.log[start:]])
    cx.check(bp.dirty, 'a point whose value cannot be encoded is still marked modified')
    cx.check(cx.all([cx.same(mem[x], mem0[x]) for x in exp[(bad[0], bad[1]['id'])]]), 'a value that cannot be encoded is not written')
    bp.value = good
    m.write_points()
    want = dict(mem0)
    for r in exp.values():
        want.update(r)
    cx.check(cx.all([cx.same(mem[a], want[a]) for a in sorted(want)]), 'after the value is corrected the device holds every modified value')
    cx.check(not any(the_point(m, bi, e).dirty for bi, e, a in pts), 'no point is marked modified after a successful write')
    cx.reach('encode failure')


def single(cx):
    client = cx.mod('sunspec.core.client')
    modbus = cx.mod(MODBUS)
    n, base = cx.p.get('n', 0), 500
    sh = Shape(cx.p['fixed'], cx.p.get('rep'))
    d, m, mem = setup(cx, sh, n, base)
    pts, sel = pick(cx, sh, n, base, 0, 3)
    exp = {}
    for bi, e, a in sel:
        v, data = new_value(cx, e, '%s_%d' % (e['id'], bi))
        the_point(m, bi, e).value = v
        exp[(bi, e['id'])] = regmem(a, data)
    if not sel:
        return
    bi, e, a = cx.choice('which', sel)
    p = the_point(m, bi, e)

    def fault(k, i):
        raise [modbus.ModbusClientError, modbus.ModbusClientTimeout, modbus.ModbusClientException][cx.p.get('kind', 0)]('injected')
    d.modbus_device.fault = fault
    r, err = cx.raises(p.write, client.SunSpecClientError)
    cx.check(err is not None, 'a failed write is reported')
    for b2, e2, a2 in pts:
        cx.check(bool(the_point(m, b2, e2).dirty) == ((b2, e2['id']) in exp), 'a failed write changes no modified mark')
    d.modbus_device.fault = None
    if cx.choice('how', [0, 1]):
        p.write()
        cx.check(not p.dirty, 'a written point is not marked modified')
    m.write_points()
    for r in exp.values():
        cx.check(cx.all([cx.same(d.modbus_device.mem[x], r[x]) for x in r]), 'after the fault is gone the device holds every modified value')
    cx.check(not any(the_point(m, b2, e2).dirty for b2, e2, a2 in pts), 'no point is marked modified after a successful write')
    cx.reach('single failed')


def cases(tier):
    th = tier == 'thorough'
    out = []
    A = (['uint16', 'pad', 'int32', 'pad', 'acc64', 'enum16'], None, 0)
    B = (['uint16', 'int32'], ['uint16', 'pad', 'int16'], 2)
    C = (['uint16', 'sunssf'], ['acc16', 'sunssf'], 3)
    D = ([{'type': 'string', 'len': 2}, 'pad', 'float32', 'uint32', 'pad', 'uint16'], None, 0)
    k = 0
    for f, r, n in (A, B, C, D):
        for at in (1, 2, 3) if th else (1, 2):
            k += 1
            out.append(('faults', {'fixed': f, 'rep': r, 'n': n, 'attempts': at, 'kind': k, 'limit': 8 if th else 6 if at == 1 else 4}))
        out.append(('encode_failure', {'fixed': f, 'rep': r, 'n': n, 'limit': 6 if th else 4}))
        out.append(('single', {'fixed': f, 'rep': r, 'n': n, 'kind': k % 3}))
    out.append(('faults', {'fixed': ['uint16', 'pad'] * 3, 'attempts': 3, 'limit': 3}))
    out.append(('faults', {'fixed': ['uint16', 'int32', 'enum16', 'acc16', 'int16', 'uint16'], 'attempts': 2, 'limit': 6}))
    out.append(('faults', {'fixed': ['uint16', 'int16', 'uint16', 'pad'], 'rep': ['uint16', 'uint32', 'int16', 'pad'], 'n': 2, 'attempts': 1, 'limit': 8 if th else 7}))
    out.append(('faults', {'fixed': ['uint16'], 'rep': ['uint16'], 'n': 3, 'attempts': 3, 'limit': 4}))
    for f, r, n, _ in ((A + (0,)), (B + (0,)), (C + (0,))):
        out.append(('faults', {'fixed': f, 'rep': r, 'n': n, 'attempts': 2, 'limit': 4, 'late': 1}))
    for link in ('tcp', 'rtu'):
        for late in (0, 1):
            out.append(('end_to_end', {'link': link, 'late': late, 'fixed': [{'type': 'string', 'len': 60}] * 3 + ['uint16'], 'at': [0, 1, 2]}))
            out.append(('end_to_end', {'link': link, 'late': late, 'fixed': ['uint16', 'pad'], 'rep': ['uint32', 'uint16'] * 4 + ['uint16'], 'n': 12, 'at': [0, 1, 2, 3]}))
        out.append(('end_to_end', {'link': link, 'late': 0, 'fixed': ['uint16'] * 121, 'at': [0, 1]}))
        out.append(('end_to_end', {'link': link, 'late': 1, 'fixed': ['uint16', 'enum16'] * 100, 'at': [0, 1]}))
    out.append(('faults', {'fixed': ['uint16'], 'rep': ['uint16', 'int32', 'pad'], 'n': 12, 'attempts': 1, 'limit': 3}))
    q = lambda t, i: {'type': t, 'id': i}
    f, r = [q('uint16', 'X'), 'pad', q('int32', 'Y')], [q('int32', 'Y'), 'pad', q('uint16', 'X')]
    out.append(('faults', {'fixed': f, 'rep': r, 'n': 2, 'attempts': 2, 'limit': 4}))
    out.append(('single', {'fixed': f, 'rep': r, 'n': 2, 'kind': 1}))
    return out
