"""C25 tracing never changes what a transfer does"""
from props.lib import *

META = {
    'bounds': {'quick': 'RTU and TCP reads (functions 3 and 4) and writes of 1..5, 120 and 260 registers with limits 1..125, every address, unit id and register value, answered '
                        'correctly, by an exception with any code, by 0..10 arbitrary bytes, by nothing, or with a failing port or connection; '
                        'the traced and the untraced transfer compared; delivered whole or in two pieces; client devices given a trace function or trace=True',
               'thorough': 'up to 8 registers, 0..14 arbitrary bytes'},
    'outside': 'trace functions that raise; the text around the hexadecimal digits; the trace of a response that is not complete or fails its check',
    'reach': ['same result', 'same error', 'traced response', 'several requests', 'exception', 'rejected', 'fault', 'client device', 'printed'],
}


class Link(object):
    """one transfer over rtu or tcp with scripted answers"""

    def __init__(self, cx, link, answers, fault=None, split=None):
        self.cx = cx
        self.link = link
        self.answers = answers
        self.k = 0
        self.sent = []          # requests
        self.given = []         # answers
        cls = Bus if link == 'rtu' else Net
        self.w = cls(cx, self.answer, split)
        self.w.fault = fault

    def answer(self, req):
        self.sent.append(req)
        r = self.answers(self.k, req)
        self.k += 1
        self.given.append(r)
        if self.link == 'tcp' and r == b'':
            return None
        return r

    def run(self, f, trace, unit, limit):
        modbus = self.cx.mod(MODBUS)
        self.w.install()
        kw = {'trace_func': trace, 'max_count': limit}
        if self.link == 'rtu':
            dev = modbus.ModbusClientDeviceRTU(unit, '/dev/symx', **kw)
        else:
            dev = modbus.ModbusClientDeviceTCP(unit, '192.0.2.5', **kw)
        r, e = self.cx.raises(lambda: f(dev), Exception)
        dev.close()
        return r, e


def compare(cx, link, f, answers, unit, limit=125, fault=None, split=None, complete=True):
    """the same transfer without and with a trace function"""
    fa, fb = (fault(), fault()) if fault else (None, None)
    sa, sb = (split(), split()) if split else (None, None)
    a = Link(cx, link, answers, fa, sa)
    ra, ea = a.run(f, None, unit, limit)
    lines = []
    b = Link(cx, link, answers, fb, sb)
    rb, eb = b.run(f, lambda s: lines.append((s, len(b.sent))), unit, limit)
    cx.observe('untraced', type(ea).__name__)
    cx.observe('traced', type(eb).__name__)
    cx.check((ea is None) == (eb is None), 'tracing changes neither success nor failure')
    if ea is not None and eb is not None:
        cx.check(type(ea) is type(eb), 'tracing changes no error')
        cx.check(cx.same(str(ea), str(eb)), 'tracing changes no error')
        cx.reach('same error')
    else:
        cx.check(cx.same(ra, rb), 'tracing changes no result')
        cx.reach('same result')
    cx.check(len(a.sent) == len(b.sent), 'tracing changes no request')
    for x, y in zip(a.sent, b.sent):
        cx.check(cx.same(x, y), 'tracing changes no request')
    cx.check([e[1] for e in a.w.log] == [e[1] for e in b.w.log], 'tracing changes no operation')
    if fault is None:
        # lines made before a request is sent belong to the request, the others to responses
        want = []
        for q, g in zip(b.sent, b.given):
            want += [q, g] if complete else [q]
        if complete:
            cx.check(len(lines) == len(want), 'one line per request and one per complete response')
            for (s, n), d in zip(lines, want):
                h = hexup(d)
                cx.check(s.endswith(h) or s.endswith(h.lower()), 'the line has the bytes in hexadecimal')
            cx.reach('traced response')
        else:
            cx.check(len(lines) >= 1 and len(lines) <= 2 * len(b.sent), 'one line per request and at most one per response')
            h = hexup(b.sent[0])
            cx.check(lines[0][0].endswith(h) or lines[0][0].endswith(h.lower()), 'the line has the bytes in hexadecimal')
    if len(b.sent) > 1:
        cx.reach('several requests')


def pieces(cx):
    if not cx.p.get('split'):
        return None
    k = cx.choice('piece', cx.p['split'])

    def mk():
        left = [1]

        def f(n):
            if left[0] and n > k:
                left[0] = 0
                return k
            return n
        return f
    return mk


def args(cx):
    n = cx.p['regs']
    unit, addr = cx.int('unit', 0, 255), cx.int('addr', 0, 65536 - n)
    if cx.p['kind'] == 'r':
        return n, unit, lambda d: d.read(addr, n, cx.p.get('op', 3))
    data = cx.bytes('wdata', 2 * n)
    return n, unit, lambda d: d.write(addr, data)


def wrap(link, req, pdu):
    if link == 'rtu':
        return rtu_frame(req[:1] + pdu)
    return req[:4] + be16(1 + len(pdu)) + req[6:7] + pdu


def intact(cx):
    n, unit, f = args(cx)
    link = cx.p['link']
    limit = cx.p.get('limit', 125)
    data = cx.bytes('answer', 2 * n)

    def answers(k, req):
        p = req[1:-2] if link == 'rtu' else req[7:]
        if cx.p['kind'] == 'w':
            return wrap(link, req, p[:5])
        d = data[2 * k * limit:2 * min(n, (k + 1) * limit)]
        return wrap(link, req, p[:1] + be8(len(d)) + d)
    compare(cx, link, f, answers, unit, limit, split=pieces(cx))


def exception(cx):
    n, unit, f = args(cx)
    link = cx.p['link']
    code = cx.int('code', 0, 255)
    limit = cx.p.get('limit', 125)
    at = cx.choice('at', list(range((n + limit - 1) // limit)))

    def answers(k, req):
        p = req[1:-2] if link == 'rtu' else req[7:]
        if k == at:
            return wrap(link, req, be8(p[0] | 0x80) + be8(code))
        if cx.p['kind'] == 'w':
            return wrap(link, req, p[:5])
        c = u16(p[3:5])
        d = b'\x12\x34' * cx.fork(c)
        return wrap(link, req, p[:1] + be8(len(d)) + d)
    compare(cx, link, f, answers, unit, limit, split=pieces(cx))
    cx.reach('exception')


def arbitrary(cx):
    n, unit, f = args(cx)
    N = cx.p['bytes']
    junk = cx.bytes('junk', N)
    link = cx.p['link']
    if link == 'tcp' and N >= 6:
        cx.assume(u16(junk[4:6]) <= 16)
    compare(cx, link, f, lambda k, req: junk, unit, complete=False, split=pieces(cx))
    cx.reach('rejected')


def faulty(cx):
    n, unit, f = args(cx)
    link = cx.p['link']
    at = cx.choice('at', list(range(8)))
    exc = cx.choice('exc', [OSError(5, 'I/O error'), stubs.SerialException('gone')] if link == 'rtu' else [OSError(104, 'Connection reset by peer'), stubs.STUBS['socket'].timeout('timed out')])

    def mk():
        st = [0]

        def fault(kind):
            if kind in ('open', 'close'):
                return
            st[0] += 1
            if st[0] - 1 == at:
                raise exc
        return fault

    def answers(k, req):
        p = req[1:-2] if link == 'rtu' else req[7:]
        return wrap(link, req, p[:5]) if cx.p['kind'] == 'w' else wrap(link, req, p[:1] + be8(2 * n) + b'\x01\x02' * n)
    compare(cx, link, f, answers, unit, fault=mk, split=pieces(cx))
    cx.reach('fault')


def clientdev(cx):
    """a client device with a trace function or trace=True reads and writes as one without"""
    client = cx.mod('sunspec.core.client')
    link, n = cx.p['link'], cx.p['regs']
    unit, addr = cx.int('unit', 0, 255), cx.int('addr', 0, 65536 - n)
    old, new = cx.bytes('answer', 2 * n), cx.bytes('wdata', 2 * n)

    def run(trace):
        sent = []

        def answer(req):
            sent.append(req)
            p = req[1:-2] if link == 'rtu' else req[7:]
            if p[0] == 16:
                return wrap(link, req, p[:5])
            return wrap(link, req, p[:1] + be8(2 * n) + old)
        (Bus if link == 'rtu' else Net)(cx, answer).install()
        if link == 'rtu':
            d = client.ClientDevice(client.RTU, unit, '/dev/symx', **trace)
        else:
            d = client.ClientDevice(client.TCP, unit, ipaddr='192.0.2.5', **trace)

        def f():
            r = cx.raises(lambda: d.read(addr, n), Exception)
            w = cx.raises(lambda: d.write(addr, new), Exception)
            d.close()
            return r, w
        text, (r, w) = cx.printed(f)
        cx.check(r[1] is None and w[1] is None, 'tracing changes neither success nor failure')
        if r[1] is None:
            cx.check(cx.same(r[0], old), 'tracing changes no result')
        return sent, text
    a, quiet = run({})
    cx.check(len(quiet) == 0, 'nothing is printed without tracing')
    lines = []
    b, t = run({'trace': lines.append} if cx.p['how'] == 'function' else {'trace': True})
    cx.check(len(a) == len(b) and len(a) == 2, 'tracing changes no request')
    for x, y in zip(a, b):
        cx.check(cx.same(x, y), 'tracing changes no request')
    if cx.p['how'] == 'function':
        cx.check(len(lines) == 4, 'one line per request and one per complete response')
        cx.reach('client device')
    else:
        cx.check(len(t) > 0, 'trace=True shows a trace')
        cx.reach('printed')


def cases(tier):
    t = tier == 'thorough'
    out = [('clientdev', {'link': l, 'regs': 2, 'how': h}) for l in ('rtu', 'tcp') for h in ('function', 'flag')]
    for link in ('rtu', 'tcp'):
        for kind, op in (('r', 3), ('r', 4), ('w', 16)):
            for n in (1, 2, 5, 8) if t else (1, 2, 5):
                for lim in (125, 1, 2):
                    if n == 1 and lim != 125:
                        continue
                    out.append(('intact', {'link': link, 'kind': kind, 'op': op, 'regs': n, 'limit': lim}))
            out.append(('intact', {'link': link, 'kind': kind, 'op': op, 'regs': 2, 'split': list(range(1, 13))}))
            out.append(('exception', {'link': link, 'kind': kind, 'op': op, 'regs': 1, 'split': list(range(1, 10))}))
            out.append(('exception', {'link': link, 'kind': kind, 'op': op, 'regs': 5, 'limit': 2}))
            for N in range(0, 15 if t else 11):
                out.append(('arbitrary', {'link': link, 'kind': kind, 'op': op, 'regs': 1, 'bytes': N}))
            out.append(('intact', {'link': link, 'kind': kind, 'op': op, 'regs': 120, 'limit': 125}))
            out.append(('intact', {'link': link, 'kind': kind, 'op': op, 'regs': 260, 'limit': 125}))
            out.append(('faulty', {'link': link, 'kind': kind, 'op': op, 'regs': 1}))
            out.append(('faulty', {'link': link, 'kind': kind, 'op': op, 'regs': 1, 'split': [1, 2, 6]}))
    return out
