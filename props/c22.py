"""C22 devices share one serial port, closed exactly when the last one closes"""
from props.lib import *

META = {
    'bounds': {'quick': 'every sequence of 5 operations (open with baud rate and parity, close, close again, transfer) by three devices, two on one port and one on '
                        'another or all three on one; every pair of baud rates 1..4000000 and parities given or defaulted; the opening of the port failing at any open, closing it failing; '
                        'every pair of slave ids 0..255, equal or not; operation sequences with two and three devices of the same slave id; ports whose names differ in directory, case or length only',
               'thorough': 'every sequence of 7 operations'},
    'outside': 'transfers on a device that was closed',
    'reach': ['opened', 'shared', 'conflict', 'port closed', 'closed twice', 'reopened', 'transfer', 'open failed', 'independent', 'close failed'],
}
NAMES = {'A': '/dev/symxA', 'B': '/dev/symxB'}
# names that are different ports though they look alike
ALIKE = ['/dev/other/symxA', '/dev/symxa', '/dev/symxA1', '/dev/symx', 'symxA']


class World(object):
    """what the ports must look like"""

    def __init__(self, cx, layout, ids):
        self.cx = cx
        self.modbus = cx.mod(MODBUS)
        self.bus = Bus(cx, self.answer).install()
        self.layout = layout
        self.ids = ids
        self.names = dict(NAMES, B=cx.p.get('b', NAMES['B']))
        self.dev = [None] * len(layout)
        self.users = {'A': [], 'B': []}
        self.conf = {}
        self.fresh = 0
        self.failing = False
        self.bus.fault = self.fault

    def fault(self, kind):
        if self.failing and kind == 'open':
            raise self.cx.choice('openexc', [stubs.SerialException('could not open port')] + odd_errors(kind))

    def answer(self, req):
        return rtu_frame(req[:2] + be8(2) + req[2:4]) if len(req) == 8 else rtu_frame(req[:6])

    def ports(self, n):
        return [p for p in self.bus.ports if p.port == self.names[n]]

    def check(self):
        cx = self.cx
        for n in self.names:
            up = [p for p in self.ports(n) if p.is_open]
            cx.check(len(up) == (1 if self.users[n] else 0), 'a port is open exactly while a device uses it')
        cx.check(len(self.bus.ports) == self.fresh, 'a port is opened only when no device uses it')

    def open(self, i, baud=None, parity=None):
        cx, n = self.cx, self.layout[i]
        kw = {}
        if baud is not None:
            kw['baudrate'] = baud
        if parity is not None:
            kw['parity'] = parity
        before = len(self.ports(n))
        d, e = cx.raises(lambda: self.modbus.ModbusClientDeviceRTU(self.ids[i], self.names[n], **kw), self.modbus.ModbusClientError)
        if self.users[n]:
            b, p = self.conf[n]
            ok = cx.all([baud is None or baud == b, parity is None or parity == p])
            cx.check(cx.iff(ok, e is None), 'exactly conflicting settings are refused')
            if e is None:
                cx.reach('shared')
            else:
                cx.reach('conflict')
        elif self.failing:
            cx.check(e is not None, 'a port that cannot be opened is reported')
            cx.reach('open failed')
        else:
            cx.check(e is None, 'a port not in use can be opened with any settings')
            if e is None:
                self.fresh += 1
                self.conf[n] = (9600 if baud is None else baud, 'N' if parity is None else parity)
                got = self.ports(n)[-1]
                cx.check(cx.all([got.baudrate == self.conf[n][0], got.parity == self.conf[n][1]]), 'the port is opened with the requested settings')
                cx.reach('reopened' if before else 'opened')
        if e is None and d is not None:
            self.dev[i] = d
            self.users[n] = self.users[n] + [i]
        self.check()

    def close(self, i):
        n = self.layout[i]
        live = i in self.users[n]
        self.dev[i].close()
        self.users[n] = [u for u in self.users[n] if u != i]
        self.cx.reach('closed twice' if not live else 'port closed' if not self.users[n] else 'independent')
        self.check()

    def transfer(self, i):
        cx = self.cx
        port = [p for p in self.ports(self.layout[i]) if p.is_open]
        seen = len(self.bus.log)
        a = cx.int('addr%d' % seen, 0, 65535)
        r, e = cx.raises(lambda: self.dev[i].read(a, 1), self.modbus.ModbusClientError)
        cx.check(e is None, 'a device that is open works')
        cx.check(cx.same(r, be16(a)), 'a device that is open gets its answer')
        cx.check(cx.same(self.bus.requests[-1][0], self.ids[i]), 'requests carry the slave id of the device')
        cx.check(all(p in port for p, k, d in self.bus.log[seen:]), 'transfers use the port of the device')
        cx.reach('transfer')

    def all_work(self):
        for i in range(len(self.dev)):
            if i in self.users[self.layout[i]]:
                self.transfer(i)


def sequence(cx):
    """operations in any order; the first ones are fixed by the case"""
    lay = cx.p['layout']
    w = World(cx, lay, cx.p.get('ids', [1, 2, 247])[:len(lay)])
    for k in range(cx.p['steps']):
        ops = []
        for i in range(len(lay)):
            if i in w.users[lay[i]]:
                ops += [('close', i), ('transfer', i)]
            else:
                ops.append(('open', i))
                if w.dev[i] is not None:
                    ops.append(('close', i))
        pre = cx.p.get('pre', [])
        if k < len(pre):
            op, i = ops[pre[k] % len(ops)]
        else:
            op, i = cx.choice('op%d' % k, ops)
        getattr(w, op)(i)
    w.all_work()


def settings(cx):
    """baud rates and parities of three opens"""
    lay = cx.p['layout']
    w = World(cx, lay, [17, 4, 9][:len(lay)])
    for i in range(len(lay)):
        baud = cx.int('baud%d' % i, 1, 4000000) if cx.choice('hasbaud%d' % i, [0, 1]) else None
        parity = cx.choice('parity%d' % i, [None, 'N', 'E'])
        w.open(i, baud, parity)
    w.all_work()
    for i in range(len(lay)):
        if w.dev[i] is not None:
            w.close(i)
    # closed: any settings again
    w.open(0, cx.int('again', 1, 4000000), cx.choice('paragain', ['N', 'E']))
    w.all_work()


def failing(cx):
    """opening fails at one of the opens"""
    lay = cx.p['layout']
    w = World(cx, lay, [17, 4, 9][:len(lay)])
    k = cx.choice('fails', list(range(len(lay))))
    for i in range(len(lay)):
        w.failing = i == k
        w.open(i)
    w.failing = False
    w.all_work()
    for i in range(len(lay)):
        if w.dev[i] is None:
            w.open(i)
    w.all_work()


def close_fails(cx):
    """closing the port fails: the port is given up all the same, and the name can be opened afresh"""
    lay = cx.p['layout']
    w = World(cx, lay, [17, 4, 9][:len(lay)])
    which = cx.choice('which', [0, 1])
    exc = cx.choice('exc', [stubs.SerialException('gone'), OSError(5, 'I/O error'), TermiosError(5, 'Input/output error')])
    closes = [0]

    def fault(kind):
        if kind == 'close':
            closes[0] += 1
            if closes[0] == which + 1:
                raise exc
    w.bus.fault = fault
    for i in range(len(lay)):
        w.open(i)
    order = list(range(len(lay)))
    if cx.choice('reverse', [0, 1]):
        order.reverse()
    for i in order:
        before = closes[0]
        r, e = cx.raises(lambda: w.dev[i].close(), w.modbus.ModbusClientError)
        cx.check(e is None or closes[0] > before, 'closing raises only when the port cannot be closed')
        w.users[lay[i]] = [u for u in w.users[lay[i]] if u != i]
        w.check()
        w.all_work()
    for i in order:
        w.open(i)
        w.all_work()
    cx.reach('close failed')


def ids(cx):
    a, b = cx.int('a', 0, 255), cx.int('b', 0, 255)
    w = World(cx, 'AA', [a, b])
    first = cx.choice('first', [0, 1])
    w.open(0)
    w.open(1)
    w.all_work()
    w.close(first)
    w.all_work()
    w.close(1 - first)
    w.open(first)
    w.all_work()


def registry(cx):
    """the port object asked for directly"""
    modbus = cx.mod(MODBUS)
    bus = Bus(cx).install()
    b1, b2 = cx.int('b1', 1, 4000000), cx.int('b2', 1, 4000000)
    p1, p2 = cx.choice('p1', ['N', 'E']), cx.choice('p2', ['N', 'E'])
    c1 = modbus.modbus_rtu_client(NAMES['A'], b1, p1)
    c2, e = cx.raises(lambda: modbus.modbus_rtu_client(NAMES['A'], b2, p2), modbus.ModbusClientError)
    cx.check(cx.iff(e is None, cx.all([b1 == b2, p1 == p2])), 'exactly conflicting settings are refused')
    if e is None:
        cx.check(c2 is c1, 'one client per port')
    cx.check(modbus.modbus_rtu_client(NAMES['A']) is c1, 'one client per port')
    cx.check(modbus.modbus_rtu_client(cx.p.get('b', NAMES['B']), b2, p2) is not c1, 'clients of different ports are different')
    cx.check(len(bus.ports) == 2, 'one serial port per name')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for lay in ('AAB', 'AAA', 'AA'):
        for a in range(3 if lay != 'AA' else 2):
            for b in range(4):
                out.append(('sequence', {'layout': lay, 'steps': 7 if t else 5, 'pre': [a, b]}))
    for lay in ('AA', 'AB', 'AAA', 'AAB', 'ABA'):
        out.append(('settings', {'layout': lay}))
        out.append(('failing', {'layout': lay}))
        out.append(('close_fails', {'layout': lay}))
    out += [('ids', {}), ('registry', {})]
    for lay, i in (('AA', [9, 9]), ('AAA', [9, 9, 9]), ('AAA', [3, 9, 3]), ('AAB', [5, 5, 5])):
        for a in range(len(lay)):
            for b in range(4 if len(set(lay)) == 1 or t else 2):
                out.append(('sequence', {'layout': lay, 'steps': 7 if t else 5, 'pre': [a, b], 'ids': i}))
    for b in ALIKE:
        out.append(('registry', {'b': b}))
        out.append(('failing', {'layout': 'AB', 'b': b}))
        for a in range(2):
            out.append(('sequence', {'layout': 'AB', 'steps': 5 if t else 4, 'pre': [a], 'b': b}))
    return out
