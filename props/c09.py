"""C09 long transfers are split into in-order requests within the limit"""
from props.lib import *

META = {
    'bounds': {'quick': 'transfers of 1..10 registers with every limit 1..12, any start address; 126, 250, 251, 300, 1300 registers with the default limit and '
                        'with limits 124..126 and 64; RTU and TCP, reads (functions 3 and 4) and writes; every register value',
               'thorough': 'transfers of 1..24 registers with every limit 1..26; 120..260 registers with the default limit'},
    'outside': 'limits below 1 or above 125 (writes above 123 are limited to 123); other transfers longer than 300 registers; requests failing half way (C17, C26)',
    'reach': ['read', 'write', 'one request', 'several requests'],
}


class Device(object):
    """a device holding n registers at addr; notes the range of each request"""

    def __init__(self, cx, addr, n, data):
        self.cx = cx
        self.addr = addr
        self.n = n
        self.data = [data[2 * i:2 * i + 2] for i in range(n)]
        self.ranges = []
        self.funcs = []

    def pdu(self, p):
        cx = self.cx
        off = cx.fork(u16(p[1:3]) - self.addr)
        cnt = cx.fork(u16(p[3:5]))
        self.ranges.append((off, cnt))
        self.funcs.append(p[0])
        if off < 0 or cnt < 1 or off + cnt > self.n:
            return be8(p[0] | 0x80) + be8(2)
        if len(p) == 5:
            return p[0:1] + be8(2 * cnt) + b''.join(self.data[off:off + cnt])
        if len(p) != 6 + 2 * cnt or cx.fork(p[5]) != 2 * cnt:
            return be8(p[0] | 0x80) + be8(3)
        for i in range(cnt):
            self.data[off + i] = p[6 + 2 * i:8 + 2 * i]
        return p[:5]

    def rtu(self, req):
        return rtu_frame(req[:1] + self.pdu(req[1:-2]))

    def tcp(self, req):
        r = req[6:7] + self.pdu(req[7:])
        return req[:4] + be16(len(r)) + r


def transfer(cx):
    n = cx.p['regs']
    lim = cx.p.get('limit')
    modbus = cx.mod(MODBUS)
    limit = cx.int('limit', 1, lim) if lim else None
    limit = cx.p['fixed'] if cx.p.get('fixed') else limit
    addr = cx.int('addr', 0, 65536 - n)
    old = cx.bytes('old', 2 * n)
    d = Device(cx, addr, n, old)
    kw = {} if limit is None else {'max_count': limit}
    if cx.p['link'] == 'rtu':
        Bus(cx, d.rtu).install()
        dev = modbus.ModbusClientDeviceRTU(5, '/dev/symx', **kw)
    else:
        Net(cx, d.tcp).install()
        dev = modbus.ModbusClientDeviceTCP(5, '192.0.2.7', **kw)
    if cx.p['kind'] == 'r':
        op = cx.p.get('op', 3)
        r = dev.read(addr, n, op)
        cx.check(cx.same(r, old), 'bytes read are those of the whole range')
        cx.check(cx.all([f == op for f in d.funcs]), 'function code of every request')
        cx.reach('read')
    else:
        new = cx.bytes('new', 2 * n)
        dev.write(addr, new)
        cx.check(cx.same(b''.join(d.data), new), 'device holds the written bytes')
        cx.reach('write')
    m = 125 if limit is None else limit
    if cx.p['kind'] == 'w' and m > 123:
        m = 123     # a Modbus write request has room for 123 registers
    pos = 0
    cx.observe('requests', d.ranges)
    for off, cnt in d.ranges:
        cx.check(off == pos, 'requests cover the range in ascending order exactly once')
        cx.check(cnt <= m, 'request longer than the limit')
        pos = off + cnt
    cx.check(pos == n, 'requests cover the whole range')
    cx.reach('one request' if len(d.ranges) == 1 else 'several requests')


def direct(cx):
    """the port object used directly, limit given per call"""
    n = cx.p['regs']
    modbus = cx.mod(MODBUS)
    limit = cx.int('limit', 1, n + 2)
    old = cx.bytes('old', 2 * n)
    d = Device(cx, 500, n, old)
    Bus(cx, d.rtu).install()
    dev = modbus.ModbusClientRTU('/dev/symx', 9600, 'N')
    if cx.p['kind'] == 'r':
        cx.check(cx.same(dev.read(5, 500, n, max_count=limit), old), 'bytes read are those of the whole range')
    else:
        new = cx.bytes('new', 2 * n)
        dev.write(5, 500, new, max_count=limit)
        cx.check(cx.same(b''.join(d.data), new), 'device holds the written bytes')
    cx.check(cx.all([c <= limit for o, c in d.ranges]), 'request longer than the limit')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for link in ('rtu', 'tcp'):
        for kind in 'rw':
            for n in range(1, 25 if t else 11):
                out.append(('transfer', {'link': link, 'kind': kind, 'regs': n, 'limit': n + 2 if t else 12, 'op': 3 + n % 2}))
            for n in (list(range(120, 261, 1)) if t else [123, 124, 125, 126, 250, 251, 300]):
                out.append(('transfer', {'link': link, 'kind': kind, 'regs': n}))
            for m in (123, 124, 64) if t else (124, 64):
                for n in ((124, 125, 126, 260) if t else (125, 260)):
                    out.append(('transfer', {'link': link, 'kind': kind, 'regs': n, 'fixed': m}))
    for link in ('rtu', 'tcp'):
        for kind in 'rw':
            out.append(('transfer', {'link': link, 'kind': kind, 'regs': 1300}))
    for kind in 'rw':
        for n in (1, 2, 3, 5, 8):
            out.append(('direct', {'kind': kind, 'regs': n}))
    return out
