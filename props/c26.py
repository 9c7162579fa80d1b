"""C26 Modbus failures reach the user as SunSpecClientError"""
from props.lib import *

META = {
    'bounds': {'quick': 'RTU, TCP and mapped devices with a model of 3 registers or of 140 registers in two requests; every operation of a client device '
                        '(create, scan, read, write, reading and writing models and points) with a failure at any request: no answer, an exception with any code 0..255, '
                        'a corrupt frame (any single bit), a closed connection, any port or socket operation failing, undefined registers, addresses -9..-1, 65530..70000 that no request can express and model lengths that lead past the last address, intact answers with up to three registers too few or two too many to any request of a long read, writes of an odd number of bytes, a map file that is missing or malformed; '
                        'every register value before and after the failure',
               'thorough': 'as quick with transfers of 3 registers and both ways of reading the large model'},
    'outside': 'read answers that are intact but from another slave (see C05)',
    'reach': ['create', 'scan', 'read', 'write', 'read points', 'write points', 'point', 'unchanged', 'recovered', 'mapped', 'rtu', 'tcp', 'undefined register', 'unaddressable', 'wrong count', 'odd'],
}
BASE = 40000
SMALL = Shape(['uint16', {'type': 'int16', 'sf': 'F2'}, 'sunssf'], mid=64121, name='small')
BIG = Shape(['uint16'] + [{'type': 'string', 'len': 60}] * 2 + ['uint32', {'type': 'int16', 'sf': 'F5'}, 'sunssf'], ['int16', {'type': 'string', 'len': 7}], mid=64122, name='big')


class World(object):
    """a device with one model behind a line that can fail"""

    def __init__(self, cx, link, shape, n=0):
        self.cx = cx
        self.link = link
        self.shape = shape
        self.n = n
        self.modbus = cx.mod(MODBUS)
        self.client = cx.mod('sunspec.core.client')
        use_defs(cx, {shape.mid: shape.xml()})
        mem = {BASE: b'Su', BASE + 1: b'nS', BASE + 2: be16(shape.mid), BASE + 3: be16(shape.total(n))}
        self.fill(mem, 'old')
        mem[BASE + 4 + shape.total(n)] = b'\xff\xff'
        self.slave = Slave(cx, mem)
        self.k = -1
        self.bad = {}
        self.fail_op = None
        self.ops = 0
        self.failed = False

    def fill(self, mem, u):
        for bi, e, a in self.shape.places(BASE + 4, self.n):
            if e['type'] == 'sunssf':
                mem.update(regmem(a, be16(self.cx.choice(u + 'sf', [-1 & 0xffff, 2]))))
            else:
                mem.update(regmem(a, implemented(self.cx, e['type'], '%s%d%s' % (u, bi, e['id']), e['len'])))

    def answer(self, good):
        def f(req):
            r = good(req)
            if self.k >= 0:
                self.k -= 1
                if self.k < 0:
                    self.failed = True
                    return self.breakit(req, r)
            return r
        return f

    def breakit(self, req, r):
        cx, how = self.cx, self.how
        tcp = self.link == 'tcp'
        pdu = req[7:] if tcp else req[1:-2]
        if how == 'silence':
            return None if tcp else b''
        if how == 'partial':
            return r[:cx.choice('part', [1, len(r) - 1])]
        if how == 'exception':
            e = be8(pdu[0] | 0x80) + be8(cx.int('code', 0, 255))
            return req[:4] + be16(3) + req[6:7] + e if tcp else rtu_frame(req[:1] + e)
        if how == 'corrupt':
            i, b = cx.choice('byte', [0, 1, 3, len(r) - 1] if len(r) < 20 else [3 + len(r) // 2]), cx.int('bit', 1, 255)
            return r[:i] + bytes([r[i] ^ b]) + r[i + 1:]
        if how == 'eof':
            self.net.conns[-1].eof = True
            return b''

    def fault(self, kind):
        if self.fail_op is None or kind in ('close',):
            return
        self.ops += 1
        if self.ops - 1 == self.fail_op:
            self.failed = True
            if self.link == 'tcp' and self.net.conns:
                # what was under way on the failed connection is lost
                self.net.conns[-1].rx = b''
            if self.exc is None:
                self.exc = self.cx.choice('odd', odd_errors(kind) or [OSError(5, 'I/O error')])
            raise self.exc

    def create(self):
        cx = self.cx
        if self.link == 'tcp':
            self.net = Net(cx, self.answer(self.slave.tcp(9))).install()
            self.net.fault = self.fault
            return self.client.ClientDevice(self.client.TCP, 9, ipaddr='192.0.2.9')
        self.net = Bus(cx, self.answer(self.slave.rtu(9))).install()
        self.net.fault = self.fault
        return self.client.ClientDevice(self.client.RTU, 9, '/dev/symx')

    def arm(self, how, at):
        cx = self.cx
        self.failed = False
        if how == 'operation':
            self.ops, self.fail_op = 0, at
            self.exc = cx.choice('exc', [OSError(5, 'I/O error'), stubs.SerialException('gone'), None] if self.link == 'rtu' else
                                 [OSError(104, 'Connection reset by peer'), stubs.STUBS['socket'].timeout('timed out'), OSError(113, 'No route to host'), None])
        else:
            self.how, self.k = how, at

    def disarm(self):
        self.k, self.fail_op = -1, None


def attempt(cx, w, f):
    """the operation either succeeds or raises SunSpecClientError"""
    client, util = cx.mod('sunspec.core.client'), cx.mod('sunspec.core.util')
    r, e = cx.raises(f, Exception)
    cx.observe('error', None if e is None else type(e).__name__)
    cx.check(e is None or (isinstance(e, client.SunSpecClientError) and isinstance(e, util.SunSpecError)), 'a failure is reported as SunSpecClientError')
    return r, e


def snapshot(m):
    return [(p.value_base, p.value_sf, bool(p.dirty)) for b in m.blocks for p in list(b.points_sf.values()) + b.points_list]


def operations(cx):
    link, how = cx.p['link'], cx.p['how']
    w = World(cx, link, BIG if cx.p['shape'] == 'big' else SMALL, cx.p.get('n', 0))
    at = cx.choice('at', cx.p['at'])
    op = cx.p['op']
    if op == 'create':
        w.arm(how, at)
        r, e = attempt(cx, w, w.create)
        cx.check((e is not None) == w.failed, 'a port that cannot be opened is reported')
        w.disarm()
        d = w.create()
        d.scan()
        cx.reach('create')
        return
    d = w.create()
    if op == 'scan':
        w.arm(how, at)
        r, e = attempt(cx, w, d.scan)
        # an error at one candidate address is no failure of the scan
        cx.check(w.failed or e is None, 'a scan without failure succeeds')
        cx.check(e is not None or len(d.models_list) == 1, 'a scan that succeeds finds the models')
        if w.failed and at >= 1 and how != 'operation':
            cx.check(e is not None, 'a failing scan is reported')
        w.disarm()
        if link == 'rtu' or e is None or how != 'silence':
            d.scan()
            cx.check(len(d.models_list) == 1 and not d.models_list[0].load_error, 'scanning works after the failure')
            cx.reach('recovered')
        cx.reach('scan')
        cx.reach(link)
        return
    d.scan()
    m = d.models_list[0]
    cx.check(not m.load_error, 'the model is loaded')
    d.read_points()
    before = snapshot(m)
    if op in ('read_points', 'device_read_points'):
        w.fill(w.slave.mem, 'new')
        w.arm(how, at)
        r, e = attempt(cx, w, m.read_points if op == 'read_points' else d.read_points)
        cx.check((e is not None) == w.failed, 'a failing read is reported')
        if e is not None:
            cx.check(cx.same(snapshot(m), before), 'a failed read leaves every point value as it was')
            cx.reach('unchanged')
        w.disarm()
        m.read_points()
        mem = w.slave.mem
        for bi, e_, a in w.shape.places(BASE + 4, w.n):
            if e_['type'] in ('uint16', 'uint32', 'int16'):
                p = the_point(m, bi, e_)
                cx.check(cx.same(p.value_base, decode(e_['type'], b''.join([mem[a + i] for i in range(e_['len'])]))), 'reading works after the failure')
        cx.reach('recovered')
        cx.reach('read points')
        return
    if op in ('write_points', 'point_write'):
        v = cx.int('v', 0, 65534)
        m.points['F0'].value = v
        w.arm(how, at)
        r, e = attempt(cx, w, m.write_points if op == 'write_points' else m.points['F0'].write)
        cx.check((e is not None) == w.failed, 'a failing write is reported')
        cx.check(bool(m.points['F0'].dirty) == (e is not None), 'a point that was not written is still modified')
        w.disarm()
        m.write_points()
        if e is None or how == 'operation' or True:
            cx.check(cx.same(w.slave.mem[BASE + 4], be16(v)), 'writing works after the failure')
        cx.reach('write points' if op == 'write_points' else 'point')
        return
    n = cx.p.get('count', 2)
    if op == 'read':
        w.arm(how, at)
        r, e = attempt(cx, w, lambda: d.read(BASE, n))
        cx.check((e is not None) == w.failed, 'a failing read is reported')
        w.disarm()
        cx.check(cx.same(d.read(BASE, 2), b'SunS'), 'reading works after the failure')
        cx.reach('read')
    else:
        data = cx.bytes('data', 2 * n)
        w.arm(how, at)
        r, e = attempt(cx, w, lambda: d.write(BASE + 4, data))
        cx.check((e is not None) == w.failed, 'a failing write is reported')
        w.disarm()
        d.write(BASE + 4, data)
        cx.check(cx.same(b''.join([w.slave.mem[BASE + 4 + i] for i in range(n)]), data), 'writing works after the failure')
        cx.reach('write')
    cx.reach(link)


def undefined(cx):
    """registers the device does not have"""
    link = cx.p['link']
    w = World(cx, link, SMALL)
    d = w.create()
    d.scan()
    end = BASE + 5 + SMALL.total(0)
    a = cx.int('addr', end - 2, end + 1)
    n = cx.int('count', 1, 3)
    if cx.choice('kind', 'rw') == 'r':
        r, e = attempt(cx, w, lambda: d.read(a, n))
    else:
        r, e = attempt(cx, w, lambda: d.write(a, b'\0\1' * cx.fork(n)))
    cx.check(cx.iff(a + n > end, e is not None), 'exactly undefined registers are an error')
    cx.reach('undefined register')


GOOD = '<mbmap addr="40000"><regs offset="0" len="2" type="string">SunS</regs><regs type="u16">64121</regs><regs type="u16">3</regs><regs type="u16">7</regs>' \
       '<regs type="s16">-5</regs><regs type="s16">-1</regs><regs type="u16">65535</regs></mbmap>'


def overflow(cx):
    """addresses a request cannot express"""
    link = cx.p['link']
    w = World(cx, link, SMALL)
    d = w.create()
    if cx.p['op'] == 'scan':
        # a length that leads past the last address
        n = cx.int('len', 65535 - BASE - 4 - cx.p['below'], 65535)
        w.slave.mem[BASE + 3] = be16(n)
        for a in range(65535 - cx.p['below'], 65536):
            w.slave.mem[a] = be16(cx.int('r%d' % a, 0, 2))
        r, e = attempt(cx, w, d.scan)
        cx.check(e is not None, 'a map that does not end is an error')
        if link == 'tcp':
            cx.check(all(c.closed for c in w.net.conns), 'the connection is closed')
    else:
        d.scan()
        a = cx.int('addr', *cx.p['addr'])
        n = cx.p['count']
        r, e = attempt(cx, w, (lambda: d.read(a, n)) if cx.p['op'] == 'read' else lambda: d.write(a, b'\0\1' * n))
        cx.check(e is not None, 'a register that cannot exist is an error')
    w.slave.mem[BASE + 3] = be16(SMALL.total(0))
    d.scan()
    cx.check(len(d.models_list) == 1 and not d.models_list[0].load_error, 'scanning works after the failure')
    cx.reach('unaddressable')


def wrong_count(cx):
    """a long read of which requests are answered with more or fewer registers than asked for"""
    link = cx.p['link']
    w = World(cx, link, SMALL)
    d = w.create()
    d.scan()
    d.modbus_device.max_count = cx.p['max']
    k = [-1]
    deltas = [cx.choice('d%d' % i, cx.p['deltas']) for i in range(cx.p['requests'])]
    good = w.net.answer_fn

    def answer(req):
        k[0] += 1
        r = good(req)
        if k[0] < len(deltas) and deltas[k[0]]:
            o = 8 if link == 'tcp' else 2
            body = r[o + 1:] if link == 'tcp' else r[o + 1:-2]
            n = len(body) // 2 + deltas[k[0]]
            body = (body + b'\x5a\xa5' * 3)[:2 * n]
            w.failed = True
            if link == 'tcp':
                return r[:4] + be16(3 + len(body)) + r[6:8] + be8(len(body)) + body
            return rtu_frame(r[:2] + be8(len(body)) + body)
        return r
    w.net.answer_fn = answer
    n = cx.p['count']
    r, e = attempt(cx, w, lambda: d.read(BASE, n))
    cx.check((e is not None) == w.failed, 'an answer with the wrong number of registers is an error, any other is not')
    if e is None:
        cx.check(cx.same(r, b''.join([w.slave.mem[BASE + i] for i in range(n)])), 'the registers are returned')
    k[0] = 99
    cx.check(cx.same(d.read(BASE, n), b''.join([w.slave.mem[BASE + i] for i in range(n)])), 'reading works after the failure')
    cx.reach('wrong count')


def odd(cx):
    """part of a register cannot be written"""
    link = cx.p['link']
    w = World(cx, link, SMALL)
    d = w.create()
    d.scan()
    if cx.p.get('max'):
        d.modbus_device.max_count = cx.p['max']
    before = dict(w.slave.mem)
    sent = len(w.net.requests)
    data = cx.bytes('data', cx.p['n'])
    a = cx.int('addr', BASE + 4, BASE + 6)
    r, e = attempt(cx, w, lambda: d.write(a, data))
    cx.check(e is not None, 'writing part of a register is an error')
    cx.check(len(w.net.requests) == sent and cx.same(sorted(before.items()), sorted(w.slave.mem.items())), 'nothing is sent for it')
    d.write(BASE + 4, b'\x12\x34')
    cx.check(cx.same(w.slave.mem[BASE + 4], b'\x12\x34'), 'writing works after the failure')
    cx.reach('odd')


def mapped(cx):
    client = cx.mod('sunspec.core.client')
    use_defs(cx, {SMALL.mid: SMALL.xml()})
    bad = {'missing': None, 'not xml': 'mbmap', 'empty': '', 'unclosed': GOOD[:-4], 'func': GOOD.replace('addr=', 'func="coil" addr='), 'base': GOOD.replace('40000', 'x'),
           'overlap': GOOD.replace('<regs type="s16">-5', '<regs offset="3" type="s16">-5'), 'type': GOOD.replace('"s16"', '"s15"'), 'value': GOOD.replace('-5', 'five'),
           'range': GOOD.replace('-5', '-40000'), 'hex': GOOD.replace('type="u16">7', '>zz00'), 'hexlen': GOOD.replace('type="u16">7', '>123'), 'noname': 0}
    kind = cx.choice('bad', sorted(bad))
    files = {'good.xml': GOOD}
    if bad[kind]:
        files['bad.xml'] = bad[kind]
    elif kind == 'empty':
        files['bad.xml'] = ''
    w = None
    r, e = attempt(cx, w, lambda: client.ClientDevice(client.MAPPED, 1, None if kind == 'noname' else 'bad.xml', Defs(files)))
    cx.check(e is not None, 'a map that cannot be loaded is reported')
    cx.reach('create')
    mapped_good(cx)


def mapped_good(cx):
    client = cx.mod('sunspec.core.client')
    use_defs(cx, {SMALL.mid: SMALL.xml()})
    w = None
    d = client.ClientDevice(client.MAPPED, 1, 'good.xml', Defs({'good.xml': GOOD}))
    d.scan()
    m = d.models_list[0]
    d.read_points()
    cx.check(m.points['F0'].value == 7, 'the mapped device works')
    if not cx.p.get('ranges'):
        return
    a, n = cx.int('addr', 39998, 40010), cx.int('count', 1, 9)
    ok = cx.all([a >= 40000, a + n <= 40008])
    r, e = attempt(cx, w, lambda: d.read(a, n))
    cx.check(cx.iff(ok, e is None), 'exactly undefined registers are an error')
    k = cx.choice('size', [1, 2, 3, 4, 16])
    data = cx.bytes('data', k)
    r, e = attempt(cx, w, lambda: d.write(a, data))
    cx.check(cx.iff(cx.all([k % 2 == 0, a >= 40000, a + k // 2 <= 40008]), e is None), 'exactly undefined registers and odd lengths are an error')
    cx.reach('mapped')


def shrunk(cx):
    """the map under a model loses registers"""
    client = cx.mod('sunspec.core.client')
    use_defs(cx, {SMALL.mid: SMALL.xml()})
    d = client.ClientDevice(client.MAPPED, 1, 'good.xml', Defs({'good.xml': GOOD}))
    d.scan()
    d.read_points()
    m = d.models_list[0]
    before = snapshot(m)
    m.points['F0'].value = cx.int('v', 0, 65534)
    dirty = snapshot(m)
    short = client.ClientDevice(client.MAPPED, 1, 's.xml', Defs({'s.xml': '<mbmap addr="40000"><regs offset="0" len="2" type="string">SunS</regs></mbmap>'}))
    keep, d.modbus_device = d.modbus_device, short.modbus_device
    for f in (m.read_points, m.write_points, m.points['F0'].write, d.read_points, d.scan):
        r, e = attempt(cx, None, f)
        cx.check(e is not None, 'registers that are gone are an error')
        cx.check(cx.same(snapshot(m), dirty), 'a failure leaves every point as it was')
    d.modbus_device = None
    for f in (lambda: d.read(1, 1), lambda: d.write(1, b'\0\1'), m.read_points, m.write_points):
        r, e = attempt(cx, None, f)
        cx.check(e is not None, 'a device without connection is an error')
    d.modbus_device = keep
    m.write_points()
    m.read_points()
    cx.check(cx.same(m.points['F0'].value, dirty[1][0]), 'works again')
    cx.reach('unchanged')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for link in ('rtu', 'tcp'):
        hows = ['silence', 'partial', 'exception'] + (['corrupt'] if link == 'rtu' else ['eof'])
        for op in ('scan', 'read_points', 'device_read_points', 'write_points', 'point_write', 'read', 'write'):
            for how in hows:
                at = [0, 1, 2, 3] if op == 'scan' else [0]
                out.append(('operations', {'link': link, 'op': op, 'how': how, 'at': at, 'shape': 'small'}))
            out.append(('operations', {'link': link, 'op': op, 'how': 'operation', 'at': list(range(12)) if op == 'scan' else list(range(6)), 'shape': 'small'}))
        out.append(('operations', {'link': link, 'op': 'create', 'how': 'operation', 'at': [0], 'shape': 'small'}))
        for how in hows:
            for op in ('read_points', 'device_read_points') if t else ('read_points',):
                out.append(('operations', {'link': link, 'op': op, 'how': how, 'at': [0, 1, 2], 'shape': 'big', 'n': 2}))
        for n in (1, 3) if t else (1,):
            for how in hows:
                out.append(('operations', {'link': link, 'op': 'read', 'how': how, 'at': [0], 'shape': 'small', 'count': n}))
                out.append(('operations', {'link': link, 'op': 'write', 'how': how, 'at': [0], 'shape': 'small', 'count': n}))
        out.append(('undefined', {'link': link}))
    out.append(('mapped', {}))
    out.append(('mapped_good', {'ranges': 1}))
    out.append(('shrunk', {}))
    for link in ('rtu', 'tcp'):
        for op in ('read', 'write'):
            for n in (1, 3, 130):
                out.append(('overflow', {'link': link, 'op': op, 'addr': [65536, 70000], 'count': n}))
                out.append(('overflow', {'link': link, 'op': op, 'addr': [-9, -1], 'count': n}))
                out.append(('overflow', {'link': link, 'op': op, 'addr': [65530, 65535], 'count': n}))
        out.append(('overflow', {'link': link, 'op': 'scan', 'below': 4}))
        for n in (1, 3, 5, 7) if t else (1, 3, 5):
            out.append(('odd', {'link': link, 'n': n}))
            out.append(('odd', {'link': link, 'n': n, 'max': 1}))
        out.append(('wrong_count', {'link': link, 'max': 125, 'requests': 1, 'count': 3, 'deltas': [0, -3, -1, 1, 2]}))
        out.append(('wrong_count', {'link': link, 'max': 2, 'requests': 2, 'count': 4, 'deltas': [0, -2, -1, 1, 2]}))
        out.append(('wrong_count', {'link': link, 'max': 2, 'requests': 3, 'count': 5, 'deltas': [0, -1, 1]}))
    return out
