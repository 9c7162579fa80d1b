"""C07 TCP requests are well-formed and segmented responses reassemble exactly"""
from props.lib import *

META = {
    'bounds': {'quick': 'all unit ids 0..255, addresses, counts 1..125, function codes 3/4; writes of 1..16, 64, 120..123 registers; responses of 1..2 registers and '
                        'write responses under every segmentation; responses of 3..8, 63, 125 registers under every first and second segment boundary; '
                        'every exception code for reads and writes',
               'thorough': 'every register count; every segmentation for 1..4 registers, every two boundaries for counts up to 40'},
    'outside': 'more than two segment boundaries for longer responses; responses to another transaction id or unit; TLS',
    'reach': ['read', 'write', 'split read', 'split write', 'exception', 'sequence'],
}
TCP = dict(ipaddr='192.0.2.7', ipport=1502)


def setup(cx, answer, split=None, unit=None, **kw):
    modbus = cx.mod(MODBUS)
    net = Net(cx, answer, split).install()
    unit = cx.int('unit', 0, 255) if unit is None else unit
    return modbus, net, unit, modbus.ModbusClientDeviceTCP(unit, '192.0.2.7', 1502, **kw)


def adu(unit, pdu):
    """Modbus/TCP frame with transaction id 0"""
    return be16(0) + be16(0) + be16(len(pdu) + 1) + be8(unit) + pdu


def reply(req, pdu):
    """answer to req: its transaction id, its unit"""
    return req[:2] + be16(0) + be16(len(pdu) + 1) + req[6:7] + pdu


def well_formed(cx, req, unit, pdu):
    """any transaction id; everything else exactly"""
    return cx.same(req[2:], be16(0) + be16(len(pdu) + 1) + be8(unit) + pdu)


def read_request(cx):
    modbus, net, unit, dev = setup(cx, None)
    addr = cx.int('addr', 0, 65535)
    count = cx.int('count', 1, 125)
    op = cx.choice('op', [3, 4, None])
    r, e = cx.raises(lambda: dev.read(addr, count) if op is None else dev.read(addr, count, op), modbus.ModbusClientError)
    cx.check(e is not None, 'no answer is an error')
    cx.check(len(net.requests) == 1, 'one request')
    cx.check(well_formed(cx, net.requests[0], unit, be8(op or 3) + be16(addr) + be16(count)), 'request bytes')
    cx.check(net.conns[0].addr == ('192.0.2.7', 1502), 'connected to the given address')
    cx.reach('read')


def write_request(cx):
    n = cx.p['regs']
    addr = cx.int('addr', 0, 65536 - n)
    data = cx.bytes('data', 2 * n)
    modbus, net, unit, dev = setup(cx, lambda req: reply(req, req[7:12]))
    dev.write(addr, data)
    cx.check(len(net.requests) == 1, 'one request')
    cx.check(well_formed(cx, net.requests[0], unit, be8(16) + be16(addr) + be16(n) + be8(2 * n) + data), 'request bytes')
    cx.reach('write')


def read(cx):
    n = cx.p['regs']
    op = cx.p.get('op', 3)
    addr = cx.int('addr', 0, 65536 - n)
    data = cx.bytes('data', 2 * n)
    modbus, net, unit, dev = setup(cx, lambda req: reply(req, be8(op) + be8(2 * n) + data), any_split(cx, cx.p.get('limit')))
    if cx.p.get('connect'):
        dev.connect()
    r = dev.read(addr, n, op)
    cx.observe('r', r)
    cx.check(cx.same(r, data), 'bytes read')
    cx.check(len(net.requests) == 1, 'one request')
    cx.check(well_formed(cx, net.requests[0], unit, be8(op) + be16(addr) + be16(n)), 'request bytes')
    cx.reach('split read')


def write(cx):
    n = cx.p['regs']
    addr = cx.int('addr', 0, 65536 - n)
    data = cx.bytes('data', 2 * n)
    modbus, net, unit, dev = setup(cx, lambda req: reply(req, req[7:12]), any_split(cx, cx.p.get('limit')))
    r, e = cx.raises(lambda: dev.write(addr, data), modbus.ModbusClientError)
    cx.check(e is None, 'write with correct answer completes')
    cx.check(well_formed(cx, net.requests[0], unit, be8(16) + be16(addr) + be16(n) + be8(2 * n) + data), 'request bytes')
    cx.reach('split write')


def codes(cx):
    code = cx.choice('code', cx.p['codes'])
    kind, op = cx.p['kind'], cx.p.get('op', 3)
    modbus, net, unit, dev = setup(cx, lambda req: reply(req, be8((req[7] | 0x80)) + be8(code)), any_split(cx, cx.p.get('limit', 1)), 9)
    r, e = cx.raises(lambda: dev.read(40000, 2, op) if kind == 'r' else dev.write(40000, b'\x00\x01\x00\x02'), modbus.ModbusClientError)
    cx.check(isinstance(e, modbus.ModbusClientException), 'exception response raises a Modbus exception error')
    cx.check(has_number(str(e), code), 'exception error carries the code')
    cx.reach('exception')


def sequence(cx):
    """three requests over one connection, or each on its own"""
    kinds = cx.p['kinds']
    ds = [cx.bytes('d%d' % i, 2 * (i + 1)) for i in range(len(kinds))]
    k = []

    def answer(req):
        i = len(k)
        k.append(1)
        if kinds[i] == 'x':
            return reply(req, be8(req[7] | 0x80) + be8(2))
        return reply(req, be8(3) + be8(2 * (i + 1)) + ds[i]) if kinds[i] == 'r' else reply(req, req[7:12])
    modbus, net, unit, dev = setup(cx, answer, any_split(cx, 1))
    if cx.choice('connect', [True, False]):
        dev.connect()
    for i, kind in enumerate(kinds):
        if kind == 'r':
            cx.check(cx.same(dev.read(10 + i, i + 1), ds[i]), 'bytes read')
            cx.check(well_formed(cx, net.requests[i], unit, be8(3) + be16(10 + i) + be16(i + 1)), 'request bytes')
        elif kind == 'x':
            r, e = cx.raises(lambda: dev.read(10 + i, i + 1), modbus.ModbusClientError)
            cx.check(isinstance(e, modbus.ModbusClientException), 'exception response raises a Modbus exception error')
        else:
            dev.write(10 + i, ds[i])
            cx.check(well_formed(cx, net.requests[i], unit, be8(16) + be16(10 + i) + be16(i + 1) + be8(2 * (i + 1)) + ds[i]), 'request bytes')
    cx.check(len(net.requests) == len(kinds), 'one request each')
    cx.reach('sequence')


def cases(tier):
    t = tier == 'thorough'
    out = [('read_request', {})]
    for n in range(1, 124) if t else list(range(1, 17)) + [64, 120, 121, 122, 123]:
        out.append(('write_request', {'regs': n}))
    for n in range(1, 5 if t else 3):
        out.append(('read', {'regs': n}))
        out.append(('read', {'regs': n, 'op': 4, 'limit': 2, 'connect': 1}))
    for n in range(1, 126) if t else [3, 4, 5, 6, 7, 8, 63, 125]:
        out.append(('read', {'regs': n, 'limit': 2 if n < (41 if t else 9) else 1, 'op': 3 + n % 2}))
    for n in range(1, 124, 1 if t else 20):
        out.append(('write', {'regs': n, 'limit': None if n == 1 else 2}))
    for kind, op in (('r', 3), ('r', 4), ('w', 16)):
        for a in range(0, 256, 64):
            out.append(('codes', {'kind': kind, 'op': op, 'codes': list(range(a, a + 64))}))
        out.append(('codes', {'kind': kind, 'op': op, 'codes': [1, 4], 'limit': None}))
    for ks in ('rrr', 'rwr', 'wrw', 'xrw', 'wxr', 'rxx'):
        out.append(('sequence', {'kinds': ks}))
    return out
