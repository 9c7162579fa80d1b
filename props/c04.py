"""C04 RTU requests are well-formed and intact responses are returned exactly"""
from props.lib import *

META = {
    'bounds': {'quick': 'all unit ids 0..255, addresses, counts 1..125 and function codes 3/4 for read requests; writes of 1..16, 64, 123 registers; '
                        'responses of 1..3 registers and write responses under every split into serial reads; responses of 4..8, 63, 125 registers under '
                        'every first and second split point; up to 3 stale bytes; two requests in a row, and the requests of one longer read or write, with up to 3 surplus bytes in between',
               'thorough': 'as quick with every register count 1..125 (reads) and 1..123 (writes), every split for responses of 1..5 registers, '
                           'every two split points for every count up to 40'},
    'outside': 'more than two split points for responses longer than 5 registers; more than 3 stale bytes; wire timing',
    'reach': ['read', 'write', 'stale', 'second', 'chunks', 'split read', 'split write'],
}


def setup(cx, answer, split=None):
    modbus = cx.mod(MODBUS)
    bus = Bus(cx, answer, split).install()
    unit = cx.int('unit', 0, 255)
    return modbus, bus, unit, modbus.ModbusClientDeviceRTU(unit, '/dev/symx')


def expect_request(cx, bus, req):
    w = b''
    last_flush, first_write = -1, None
    for i, (p, kind, d) in enumerate(bus.log):
        if kind == 'write':
            w = w + d
            if first_write is None:
                first_write = i
    cx.check(cx.same(w, req), 'request bytes on the line')


def read_request(cx):
    """any read: exactly this request, whatever the answer"""
    modbus, bus, unit, dev = setup(cx, None)
    addr = cx.int('addr', 0, 65535)
    count = cx.int('count', 1, 125)
    op = cx.choice('op', [3, 4, None])
    r, e = cx.raises(lambda: dev.read(addr, count) if op is None else dev.read(addr, count, op), modbus.ModbusClientError)
    cx.check(e is not None, 'silence is an error')
    cx.observe('sent', bus.requests[0])
    expect_request(cx, bus, rtu_frame(be8(unit) + be8(3 if op is None else op) + be16(addr) + be16(count)))
    cx.reach('read')


def write_request(cx):
    n = cx.p['regs']
    addr = cx.int('addr', 0, 65536 - n)
    data = cx.bytes('data', 2 * n)
    modbus, bus, unit, dev = setup(cx, lambda req: rtu_frame(be8(unit) + be8(16) + be16(addr) + be16(n)))
    dev.write(addr, data)
    cx.observe('sent', bus.requests[0])
    expect_request(cx, bus, rtu_frame(be8(unit) + be8(16) + be16(addr) + be16(n) + be8(2 * n) + data))
    cx.reach('write')


def read(cx):
    """correct answers come back exactly, however they are split, whatever was in the input buffer"""
    n = cx.p['regs']
    addr = cx.int('addr', 0, 65536 - n)
    op = cx.p.get('op', 3)
    data = cx.bytes('data', 2 * n)
    split = any_split(cx, cx.p.get('limit'))
    modbus, bus, unit, dev = setup(cx, lambda req: rtu_frame(be8(unit) + be8(op) + be8(2 * n) + data), split)
    stale = cx.bytes('stale', cx.p.get('stale', 0))
    for p in bus.ports:
        p.rx = stale
    r = dev.read(addr, n, op)
    cx.observe('result', r)
    cx.check(cx.same(r, data), 'bytes read')
    expect_request(cx, bus, rtu_frame(be8(unit) + be8(op) + be16(addr) + be16(n)))
    cx.reach('split read')
    if len(stale):
        cx.reach('stale')


def write(cx):
    n = cx.p['regs']
    addr = cx.int('addr', 0, 65536 - n)
    data = cx.bytes('data', 2 * n)
    modbus, bus, unit, dev = setup(cx, lambda req: rtu_frame(req[:6]), any_split(cx))
    stale = cx.bytes('stale', cx.p.get('stale', 0))
    for p in bus.ports:
        p.rx = stale
    dev.write(addr, data)
    expect_request(cx, bus, rtu_frame(be8(unit) + be8(16) + be16(addr) + be16(n) + be8(2 * n) + data))
    cx.reach('split write')


def two(cx):
    """surplus bytes after one response never reach the next request"""
    n = cx.p['regs']
    extra = cx.bytes('extra', cx.p['extra'])
    d1 = cx.bytes('d1', 2 * n)
    d2 = cx.bytes('d2', 2 * n)
    kinds = cx.p['kinds']
    state = []

    def answer(req):
        state.append(req)
        d = d1 if len(state) == 1 else d2
        f = rtu_frame(be8(unit) + be8(3) + be8(2 * n) + d) if kinds[len(state) - 1] == 'r' else rtu_frame(req[:6])
        return f + (extra if len(state) == 1 else b'')
    modbus, bus, unit, dev = setup(cx, answer)
    for k, d in zip(kinds, (d1, d2)):
        if k == 'r':
            cx.check(cx.same(dev.read(100, n), d), 'bytes read')
        else:
            dev.write(100, d)
    cx.check(len(bus.requests) == 2, 'one request each')
    cx.reach('second')


def chunks(cx):
    """surplus bytes between the requests of one read never reach the next of them"""
    n, mx = cx.p['regs'], cx.p['max']
    modbus = cx.mod(MODBUS)
    mem = {}
    for i in range(n):
        mem[100 + i] = cx.bytes('d%d' % i, 2)
    extra = cx.bytes('extra', cx.p['extra'])
    at = cx.choice('at', list(range((n + mx - 1) // mx)))
    slave = Slave(cx, mem).rtu(3)
    seen = []

    def answer(req):
        seen.append(req)
        return slave(req) + (extra if len(seen) - 1 == at else b'')
    bus = Bus(cx, answer).install()
    dev = modbus.ModbusClientDeviceRTU(3, '/dev/symx', max_count=mx)
    how = cx.p['how']
    for k in range(2):
        if how == 'r':
            cx.check(cx.same(dev.read(100, n), b''.join([mem[100 + i] for i in range(n)])), 'bytes read')
        else:
            dev.write(100, b''.join([mem[100 + i] for i in range(n)]))
    cx.check(len(seen) == 2 * ((n + mx - 1) // mx), 'requests')
    cx.reach('chunks')


def shared(cx):
    """two devices on one port: each request carries its own unit id"""
    modbus = cx.mod(MODBUS)
    u1 = cx.int('u1', 0, 255)
    u2 = cx.int('u2', 0, 255)
    cx.assume(u1 != u2)
    d = [cx.bytes('d1', 2), cx.bytes('d2', 2)]
    reqs = []

    def answer(req):
        reqs.append(req)
        return rtu_frame(req[:1] + be8(3) + be8(2) + d[len(reqs) - 1])
    bus = Bus(cx, answer).install()
    a = modbus.ModbusClientDeviceRTU(u1, '/dev/symx')
    b = modbus.ModbusClientDeviceRTU(u2, '/dev/symx')
    order = cx.choice('order', [(0, 1), (1, 0)])
    devs = (a, b)
    us = (u1, u2)
    for k, i in enumerate(order):
        cx.check(cx.same(devs[i].read(5, 1), d[k]), 'bytes read')
        cx.check(cx.same(bus.requests[k], rtu_frame(be8(us[i]) + be8(3) + be16(5) + be16(1))), 'request of the right unit')
    cx.reach('second')


def cases(tier):
    t = tier == 'thorough'
    out = [('read_request', {}), ('shared', {})]
    for n in range(1, 124) if t else list(range(1, 17)) + [64, 123]:
        out.append(('write_request', {'regs': n}))
    for n in range(1, 6 if t else 4):
        out.append(('read', {'regs': n}))
    out.append(('read', {'regs': 1, 'op': 4}))
    for n in range(1, 126) if t else [4, 5, 6, 7, 8, 63, 125]:
        lim = 2 if (n <= 40 if t else n <= 8) else 1
        out.append(('read', {'regs': n, 'limit': lim, 'op': 3 + n % 2}))
    for s in (1, 2, 3):
        out.append(('read', {'regs': 1, 'stale': s}))
        out.append(('write', {'regs': 1, 'stale': s}))
    for n in ([1, 2, 3, 8, 61, 123] if t else [1, 2, 3]):
        out.append(('write', {'regs': n}))
    for e in range(0, 4):
        for k in ('rr', 'rw', 'wr', 'ww'):
            out.append(('two', {'regs': 1, 'extra': e, 'kinds': k}))
        for k in 'rw':
            out.append(('chunks', {'regs': 3, 'max': 1, 'extra': e, 'how': k}))
            out.append(('chunks', {'regs': 5, 'max': 2, 'extra': e, 'how': k}))
    return out
