"""C08 TCP faults surface as client errors and never poison the device object"""
from props.lib import *
from props.c07 import reply

META = {
    'bounds': {'quick': 'requests of 1..3 registers in up to 2 chunks, and of 5 registers in 5 chunks over explicit connections; a fault (refused, reset, timeout, broken pipe, peer closing, silence) at any one or two '
                        'of the socket operations, closing included, of up to three calls; responses in one, two or byte-sized segments, truncated after any number of bytes; '
                        'exception responses with any code, short and senseless frames to any request; automatic and explicit connections; scans of maps of 0..2 models, complete or cut off, stopped by the caller or not, with up to two faults',
               'thorough': 'up to three faults over four calls'},
    'outside': 'TLS (see C27)',
    'reach': ['fault', 'no fault', 'close failed', 'recovered', 'kept', 'truncated', 'scan', 'scan failed', 'refused'],
}


class Plan(object):
    """Which socket operations fail: up to `n` faults chosen by the solver-independent case split."""

    def __init__(self, cx, n, kinds):
        self.cx = cx
        self.left = n
        self.kinds = kinds
        self.on = True
        self.hit = 0
        self.k = 0

    def __call__(self, kind):
        if not self.on or self.left <= 0 or kind not in self.kinds:
            return
        if self.cx.choice('fault', [False, True]):
            self.left -= 1
            self.hit += 1
            raise self.cx.choice('exc', faults(kind))


def faults(kind):
    if kind == 'recv':
        return [stubs.STUBS['socket'].timeout('timed out'), ConnectionResetError(104, 'reset')]
    if kind == 'connect':
        return [ConnectionRefusedError(111, 'refused'), stubs.STUBS['socket'].timeout('timed out'), OSError(101, 'unreachable')] + odd_errors(kind)
    if kind == 'close':
        return [OSError(5, 'Input/output error'), ConnectionResetError(104, 'reset')]
    return [BrokenPipeError(32, 'Broken pipe')]


def setup(cx, plan, split=None, max_count=None):
    modbus = cx.mod(MODBUS)

    def answer(req):
        n = (req[10] << 8) | req[11]
        if req[7] == 3:
            return reply(req, be8(3) + be8(2 * n) + bytes([(req[9] + i) & 255 for i in range(2 * n)]))
        return reply(req, req[7:12])
    net = Net(cx, answer, split).install()
    net.fault = net.late = plan
    kw = {} if max_count is None else {'max_count': max_count}
    return modbus, net, modbus.ModbusClientDeviceTCP(3, '192.0.2.7', 1502, **kw)


def open_conns(net):
    return [c for c in net.conns if not c.closed]


def call(cx, modbus, dev, kind, n, addr=100):
    def f():
        if kind == 'r':
            return dev.read(addr, n)
        dev.write(addr, b'\x00\x01' * n)
        return None
    r, e = cx.raises(f, modbus.ModbusClientError)
    if e is None and kind == 'r' and n < 3:
        cx.check(cx.same(r, bytes([addr + i for i in range(2 * n)])), 'the answer to this request is returned')
    cx.observe('call', type(e).__name__ if e is not None else r)
    return r, e


def auto(cx):
    """automatic connections: closed after every call whatever happened; a later call works"""
    kinds, n = cx.p['kinds'], cx.p['regs']
    plan = Plan(cx, cx.p['faults'], cx.p['ops'])
    modbus, net, dev = setup(cx, plan, cx.p.get('bytewise') and (lambda k: 1) or None, cx.p.get('max'))
    for kind in kinds:
        before = plan.hit
        r, e = call(cx, modbus, dev, kind, n)
        cx.check((e is not None) == (plan.hit > before), 'an error is raised exactly when an operation failed')
        cx.check(len(open_conns(net)) == 0, 'connection opened by the call is closed again')
        if e is None and kind == 'r':
            cx.check(len(r) == 2 * n, 'bytes read')
        cx.reach('fault' if e is not None else 'no fault')
    plan.on = False
    r, e = call(cx, modbus, dev, 'r', n)
    cx.check(e is None, 'works again once the fault is gone')
    cx.check(len(open_conns(net)) == 0, 'connection opened by the call is closed again')
    cx.reach('recovered')


def explicit(cx):
    """an explicit connection stays open across successful calls, and disconnect closes it"""
    kinds, n = cx.p['kinds'], cx.p['regs']
    plan = Plan(cx, cx.p['faults'], cx.p['ops'])
    modbus, net, dev = setup(cx, plan, None, cx.p.get('max'))
    plan.on = False
    dev.connect()
    plan.on = True
    cx.check(len(open_conns(net)) == 1, 'connected')
    addr = 10
    for kind in kinds:
        before = plan.hit
        addr += 9
        r, e = call(cx, modbus, dev, kind, n, addr)
        cx.check((e is not None) == (plan.hit > before), 'an error is raised exactly when an operation failed')
        if plan.hit == 0:
            cx.check(len(net.conns) == 1 and len(open_conns(net)) == 1, 'explicit connection is used and kept')
            cx.reach('kept')
    plan.on = False
    how = cx.choice('how', ['disconnect', 'close', 'connect'])
    opened = len(net.conns)
    getattr(dev, how)()
    cx.check(len(open_conns(net)) == (1 if how == 'connect' else 0), 'connections after ' + how)
    if how == 'connect':
        cx.check(not net.conns[-1].closed and len(net.conns) == opened + 1, 'connect opens a new connection')
    r, e = call(cx, modbus, dev, 'r', n)
    cx.check(e is None, 'works again once the fault is gone')
    cx.check(len(open_conns(net)) == (1 if how == 'connect' else 0), 'connection of the call closed, explicit one kept')
    cx.reach('recovered')


def scanning(cx):
    """a scan connects once, and closes its connection whatever happens to it"""
    client = cx.mod('sunspec.core.client')
    use_defs(cx, {64100: model_xml(64100, 2, [block([point('A', 'uint16', 0), point('B', 'uint16', 1)], 2)])})
    base = cx.choice('base', [40000, 50000])
    mem = {base: b'Su', base + 1: b'nS'}
    a = base + 2
    for i in range(cx.p['models']):
        mem.update(regmem(a, be16(64100 + i) + be16(2) + b'\0\1\0\2'))
        a += 4
    if cx.p.get('end', 1):
        mem[a] = b'\xff\xff'
    plan = Plan(cx, cx.p['faults'], cx.p['ops'])
    net = Net(cx, Slave(cx, mem).tcp(3)).install()
    net.fault = net.late = plan
    d = client.ClientDevice(client.TCP, 3, ipaddr='192.0.2.7', ipport=502)
    stop = cx.choice('stop', [None, 0, 1])
    count = []

    def progress(text):
        count.append(text)
        return len(count) - 1 != stop
    r, e = cx.raises(lambda: d.scan(progress=progress), client.SunSpecClientError)
    cx.check(len(open_conns(net)) == 0, 'the connection of a scan is closed again')
    cx.check(len(net.conns) <= 1 or plan.hit > 0, 'a scan connects once')
    if plan.hit == 0 and cx.p.get('end', 1) and (stop is None or stop >= cx.p['models']):
        cx.check(e is None, 'a scan without fault succeeds')
    cx.reach('scan failed' if e is not None else 'scan')
    plan.on = False
    mem[a] = b'\xff\xff'
    cx.check(cx.same(d.read(base, 2), b'SunS'), 'works again once the fault is gone')
    cx.check(len(open_conns(net)) == 0, 'connection opened by the call is closed again')
    d.scan()
    cx.check(len(d.models_list) == cx.p['models'] and len(open_conns(net)) == 0, 'works again once the fault is gone')
    cx.reach('recovered')


def close_fails(cx):
    """closing the socket fails, alone or after another fault: a later call works"""
    kinds = cx.p['kinds']
    other = [0]
    plan = Plan(cx, cx.p['faults'], cx.p['ops'])

    def fault(kind):
        before = plan.hit
        try:
            plan(kind)
        finally:
            if plan.hit > before and kind != 'close':
                other[0] += 1
    modbus, net, dev = setup(cx, fault)
    if cx.p.get('explicit'):
        plan.on = False
        dev.connect()
        plan.on = True
    for kind in kinds:
        before = other[0]
        r, e = call(cx, modbus, dev, kind, 1)
        cx.check((e is not None) == (other[0] > before), 'an error is raised exactly when a request failed')
        if not cx.p.get('explicit'):
            cx.check(len(open_conns(net)) == 0, 'connection opened by the call is closed again')
    if cx.p.get('explicit'):
        how = cx.choice('how', ['disconnect', 'close', 'connect'])
        before = other[0]
        r, e = cx.raises(lambda: getattr(dev, how)(), modbus.ModbusClientError)
        cx.check((e is not None) == (other[0] > before), 'an error is raised exactly when connecting failed')
        cx.check(len(open_conns(net)) == (1 if how == 'connect' and e is None else 0), 'connections after ' + how)
    plan.on = False
    r, e = call(cx, modbus, dev, 'r', 1)
    cx.check(e is None, 'works again once the fault is gone')
    if plan.hit > other[0]:
        cx.reach('close failed')
    cx.reach('recovered')


def connect_fails(cx):
    """explicit connect failing: error of the family, nothing left behind, a later connect or call works"""
    plan = Plan(cx, 2, ('socket', 'connect'))
    modbus, net, dev = setup(cx, plan)
    for i in range(3):
        before = plan.hit
        r, e = cx.raises(lambda: dev.connect(), modbus.ModbusClientError)
        failed = plan.hit > before
        cx.check((e is not None) == failed, 'connect raises exactly when it failed')
        cx.check(len(open_conns(net)) == (0 if failed else 1), 'connections after connect')
        cx.reach('fault' if failed else 'no fault')
    plan.on = False
    r, e = call(cx, modbus, dev, 'r', 1)
    cx.check(e is None, 'works again once the fault is gone')
    cx.reach('recovered')


def truncated(cx):
    """the peer answers only k bytes and then closes or goes silent"""
    kind = cx.p['kind']
    n = cx.p['regs']
    total = 9 + 2 * n if kind == 'r' else 12
    k = cx.choice('k', list(range(total)))
    eof = cx.choice('eof', [False, True])
    modbus = cx.mod(MODBUS)
    data = cx.bytes('data', 2 * n)
    bad = [True]

    def answer(req):
        f = reply(req, be8(3) + be8(2 * n) + data) if kind == 'r' else reply(req, req[7:12])
        if bad[0]:
            net.conns[-1].eof = eof
            return f[:k]
        return f
    net = Net(cx, answer, any_split(cx, cx.p.get('splits', 1))).install()
    dev = modbus.ModbusClientDeviceTCP(3, '192.0.2.7', 1502)
    f = lambda: dev.read(100, n) if kind == 'r' else dev.write(100, data)
    r, e = cx.raises(f, modbus.ModbusClientError)
    cx.check(e is not None, 'incomplete response is an error')
    if not eof:
        cx.check(isinstance(e, modbus.ModbusClientTimeout), 'silence is a timeout error')
    cx.check(len(open_conns(net)) == 0, 'connection opened by the call is closed again')
    cx.reach('truncated')
    bad[0] = False
    r, e = cx.raises(f, modbus.ModbusClientError)
    cx.check(e is None, 'works again once the fault is gone')
    if kind == 'r':
        cx.check(cx.same(r, data), 'bytes read')
    cx.reach('recovered')


def refused(cx):
    """the server answers some requests with an exception or with a frame that is no answer"""
    modbus = cx.mod(MODBUS)
    n = cx.p['regs']
    bad = cx.choice('bad', list(range(cx.p['requests'])) + [None])
    how = cx.p['how']
    if how == 'exception':
        code = cx.int('code', 0, 255)
    seen = [0]

    def answer(req):
        seen[0] += 1
        if bad is not None and seen[0] == bad + 1:
            if how == 'exception':
                return reply(req, be8(req[7] | 0x80) + be8(code))
            if how == 'short':
                return reply(req, be8(req[7]))
            if how == 'junk':
                return cx.bytes('junk', 3) + b'\0\0\0'
        k = (req[10] << 8) | req[11]
        if req[7] == 3:
            return reply(req, be8(3) + be8(2 * k) + bytes([(req[9] + i) & 255 for i in range(2 * k)]))
        return reply(req, req[7:12])
    net = Net(cx, answer).install()
    dev = modbus.ModbusClientDeviceTCP(3, '192.0.2.7', 1502, max_count=cx.p.get('max', 125))
    explicit = cx.p.get('explicit')
    failed = False
    if explicit:
        dev.connect()
    for kind in cx.p['kinds']:
        before = seen[0]
        r, e = call(cx, modbus, dev, kind, n)
        hit = bad is not None and before <= bad < seen[0]
        if how == 'exception':
            cx.check((e is not None) == hit, 'an exception response is an error, any other answer is not')
        if not hit:
            cx.check(e is None, 'an error is raised exactly when an operation failed')
        if explicit:
            cx.check(e is not None or failed or len(open_conns(net)) == 1, 'explicit connection is used and kept')
        else:
            cx.check(len(open_conns(net)) == 0, 'connection opened by the call is closed again')
        failed = failed or e is not None
        if hit:
            cx.reach('refused')
    bad = None
    if explicit and cx.choice('close', [0, 1]):
        dev.disconnect()
        cx.check(len(open_conns(net)) == 0, 'connections after disconnect')
    r, e = call(cx, modbus, dev, 'r', n)
    cx.check(e is None, 'works again once the fault is gone')
    if not explicit:
        cx.check(len(open_conns(net)) == 0, 'connection opened by the call is closed again')
    cx.reach('recovered')


def cases(tier):
    t = tier == 'thorough'
    ops = ('socket', 'connect', 'send', 'sent', 'recv')
    out = [('connect_fails', {})]
    for ks in (['rrw', 'wrr'] if t else ['r', 'w', 'rw']):
        for x in (0, 1):
            out.append(('close_fails', {'kinds': ks, 'explicit': x, 'faults': 2, 'ops': ('socket', 'connect', 'send', 'recv', 'close')}))
    for ks in (['rrw', 'wrr', 'wwr', 'rrrr'] if t else ['rr', 'rw', 'wr', 'ww']):
        out.append(('auto', {'kinds': ks, 'regs': 1, 'faults': 3 if t else 2, 'ops': ops}))
        out.append(('auto', {'kinds': ks, 'regs': 3, 'faults': 2 if t else 1, 'ops': ops, 'max': 2}))
        out.append(('explicit', {'kinds': ks, 'regs': 1, 'faults': 2 if t else 1, 'ops': ('send', 'sent', 'recv')}))
        out.append(('explicit', {'kinds': ks + 'rr', 'regs': 1, 'faults': 2, 'ops': ('sent', 'recv')}))
    for k in 'rw':
        out.append(('auto', {'kinds': k, 'regs': 2, 'faults': 1, 'ops': ops, 'bytewise': True}))
        out.append(('explicit', {'kinds': k + k + 'r', 'regs': 2, 'faults': 0, 'ops': ()}))
        out.append(('explicit', {'kinds': k + 'rw', 'regs': 7 if t else 5, 'max': 1, 'faults': 0, 'ops': ()}))
        out.append(('explicit', {'kinds': k + k, 'regs': 4, 'max': 1, 'faults': 1, 'ops': ('send', 'recv')}))
        for n in ((1, 2, 3) if t else (1, 2)):
            out.append(('truncated', {'kind': k, 'regs': n, 'splits': 2 if t else 1}))
    for ks in ('rr', 'rw', 'wr', 'ww', 'rwr'):
        for how in ('exception', 'short', 'junk'):
            for x in (0, 1):
                out.append(('refused', {'kinds': ks, 'regs': 1, 'requests': len(ks), 'how': how, 'explicit': x}))
                if how == 'exception' or t:
                    out.append(('refused', {'kinds': ks, 'regs': 3, 'requests': 2 * len(ks), 'how': how, 'explicit': x, 'max': 2}))
    for n in (0, 1, 2):
        out.append(('scanning', {'models': n, 'faults': 1, 'ops': ops + ('close',)}))
        out.append(('scanning', {'models': n, 'faults': 0, 'ops': ops, 'end': 0}))
    out.append(('scanning', {'models': 1, 'faults': 2, 'ops': ('connect', 'send', 'recv')}))
    return out
