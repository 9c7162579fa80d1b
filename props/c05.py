"""C05 RTU never accepts a corrupt frame: bad responses raise client errors"""
from props.lib import *

META = {
    'bounds': {'quick': 'reads of 1 or 2 registers and writes of 1 register answered by 0..10 arbitrary bytes (every value of every byte) and then silence, '
                        'delivered whole or with one arbitrary split; every exception code; serial errors at every operation; '
                        'then a good exchange; reads of 8, 60, 125 registers answered short, or with any byte changed to any other value, or by any other slave id or function',
               'thorough': 'reads of 1..4 registers answered by 0..14 arbitrary bytes, two arbitrary splits'},
    'outside': 'longer arbitrary responses; a CRC-valid frame with another byte count in answer to a read may be accepted or rejected (the client device rejects it, C26)',
    'reach': ['timeout', 'accepted', 'rejected', 'exception', 'write ok', 'write rejected', 'serial error', 'recovered', 'foreign'],
}


def setup(cx, answer, split=None, unit=None):
    modbus = cx.mod(MODBUS)
    bus = Bus(cx, answer, split).install()
    unit = cx.int('unit', 0, 255) if unit is None else unit
    return modbus, bus, unit, modbus.ModbusClientDeviceRTU(unit, '/dev/symx')


def crc_ok(cx, frame):
    return cx.same(frame[-2:], crc16(frame[:-2]))


def classify(cx, modbus, e):
    return isinstance(e, modbus.ModbusClientTimeout), isinstance(e, modbus.ModbusClientException)


def arbitrary_read(cx):
    n, N = cx.p['regs'], cx.p['bytes']
    op = cx.p.get('op', 3)
    resp = cx.bytes('resp', N)
    modbus, bus, unit, dev = setup(cx, lambda req: resp, any_split(cx, cx.p.get('splits', 0)))
    r, e = cx.raises(lambda: dev.read(40000, n, op), modbus.ModbusClientError)
    cx.observe('result', r)
    cx.observe('error', None if e is None else type(e).__name__)
    timeout, exc = classify(cx, modbus, e)
    want = be8(unit) + be8(op) + be8(2 * n)
    full = 5 + 2 * n
    k = min(N, 3)
    prefix = cx.same(resp[:k], want[:k])
    exhead = cx.all([resp[0] == unit, resp[1] == (op | 0x80)]) if N >= 2 else False
    if N < full:
        # the expected answer has begun but is not complete when the line goes silent
        cx.check(cx.implies(prefix, timeout), 'silence inside the expected response is a timeout error')
    else:
        good = cx.all([prefix, crc_ok(cx, resp[:full])])
        if N == full:
            cx.check(cx.implies(good, e is None), 'a correct response was rejected')
        cx.check(cx.implies(cx.all([prefix, cx.not_(good)]), e is not None), 'corrupt response accepted')
        cx.check(cx.implies(prefix, not exc and not timeout), 'a complete data response raised a timeout or exception error')
    if N < 5:
        cx.check(cx.implies(exhead, timeout), 'silence inside an exception response is a timeout error')
    else:
        ok = crc_ok(cx, resp[:5])
        if N == 5:
            cx.check(cx.implies(cx.all([exhead, ok]), exc), 'exception frame not reported as exception')
        cx.check(cx.implies(cx.all([exhead, cx.not_(ok)]), e is not None and not exc), 'corrupt exception frame taken for an exception')
    if N == 0:
        cx.check(timeout, 'silence is a timeout error')
    if e is None:
        cx.reach('accepted')
        m = len(r)
        cx.check(m + 5 <= N, 'returned more than arrived')
        if m + 5 <= N:
            cx.check(cx.all([resp[2] == m, cx.same(r, resp[3:3 + m]), crc_ok(cx, resp[:m + 5])]), 'returned bytes are not the payload of a CRC-valid frame')
            cx.check(cx.all([resp[0] == unit, resp[1] == op]), 'the response of another slave or function was accepted')
    elif timeout:
        cx.reach('timeout')
    elif exc:
        cx.reach('exception')
        cx.check(N >= 5, 'exception error without a complete frame')
        if N >= 5:
            cx.check(cx.all([resp[1] >= 128, crc_ok(cx, resp[:5])]), 'exception error without a CRC-valid exception frame')
    else:
        cx.reach('rejected')


def arbitrary_write(cx):
    N = cx.p['bytes']
    resp = cx.bytes('resp', N)
    addr = cx.int('addr', 0, 65000)
    n = cx.p.get('regs', 1)
    modbus, bus, unit, dev = setup(cx, lambda req: resp, any_split(cx, cx.p.get('splits', 0)))
    data = cx.bytes('data', 2 * n)
    r, e = cx.raises(lambda: dev.write(addr, data), modbus.ModbusClientError)
    cx.observe('error', None if e is None else type(e).__name__)
    timeout, exc = classify(cx, modbus, e)
    head = be8(unit) + be8(16) + be16(addr) + be16(n)
    want = rtu_frame(head)
    echo = cx.all([cx.same(resp[:6], head), crc_ok(cx, resp[:8])]) if N >= 8 else False
    if e is None:
        cx.reach('write ok')
        cx.check(N >= 8, 'write succeeded without a complete response')
        if N >= 8:
            cx.check(echo, 'write succeeded without the matching echo')
    else:
        cx.reach('write rejected')
        if N == 8:
            cx.check(cx.not_(echo), 'a correct echo was rejected')
    if N < 8:
        cx.check(cx.implies(cx.same(resp, want[:N]), timeout), 'silence inside the expected response is a timeout error')
    if N >= 5:
        exhead = cx.all([resp[0] == unit, resp[1] == 0x90])
        ok = crc_ok(cx, resp[:5])
        if N == 5:
            cx.check(cx.implies(cx.all([exhead, ok]), exc), 'exception frame not reported as exception')
        cx.check(cx.implies(cx.all([exhead, cx.not_(ok)]), e is not None and not exc), 'corrupt exception frame taken for an exception')
        if exc:
            cx.check(cx.all([resp[1] >= 128, ok]), 'exception error without a CRC-valid exception frame')
    else:
        cx.check(timeout or e is not None, 'short response accepted')


def long(cx):
    """the answer to a longer read or write breaks off, or one of its bytes is changed"""
    n = cx.p['regs']
    data = bytes([(7 * i + 3) & 255 for i in range(2 * n)])
    good = rtu_frame(b'\x11\x03' + be8(2 * n) + data) if cx.p['kind'] == 'r' else rtu_frame(b'\x11\x10' + be16(100) + be16(n))
    size = len(good)
    if cx.p['how'] == 'foreign':
        # an intact frame of another slave or another function
        head = cx.choice('part', [0, 1])
        x = cx.int('x', 1, 255)
        resp = (be8(good[0] ^ x) + good[1:2] if head == 0 else good[:1] + be8(good[1] ^ (x & 127))) + good[2:-2]
        cx.assume(cx.any([head == 0, (x & 127) != 0]))
        resp = rtu_frame(resp)
        modbus, bus, unit, dev = setup(cx, lambda req: resp, None, 17)
        r, e = cx.raises(lambda: dev.read(100, n) if cx.p['kind'] == 'r' else dev.write(100, data), modbus.ModbusClientError)
        cx.check(e is not None, 'the response of another slave or function is an error')
        cx.reach('foreign')
        return
    at = cx.choice('at', [i for i in cx.p['at'] if i < size] + [size - 2, size - 1])
    if cx.p['how'] == 'short':
        resp = good[:at]
    else:
        x = cx.int('x', 1, 255)
        resp = good[:at] + be8(good[at] ^ x) + good[at + 1:]
    modbus, bus, unit, dev = setup(cx, lambda req: resp, any_split(cx, cx.p.get('splits', 0)), 17)
    r, e = cx.raises(lambda: dev.read(100, n) if cx.p['kind'] == 'r' else dev.write(100, data), modbus.ModbusClientError)
    cx.check(e is not None, 'an incomplete or corrupt response is an error')
    timeout, exc = classify(cx, modbus, e)
    cx.check(not exc, 'a corrupt response taken for an exception')
    if cx.p['how'] == 'short':
        cx.check(timeout, 'silence inside the expected response is a timeout error')
        cx.reach('timeout')
    else:
        cx.reach('rejected')


def codes(cx):
    """the exception error carries the code"""
    code = cx.choice('code', cx.p['codes'])
    func = 16 if cx.p['kind'] == 'w' else cx.p.get('op', 3)
    modbus, bus, unit, dev = setup(cx, lambda req: rtu_frame(req[:1] + be8(func | 0x80) + be8(code)), any_split(cx, 1), 17)
    if cx.p['kind'] == 'w':
        r, e = cx.raises(lambda: dev.write(100, b'\x00\x01'), modbus.ModbusClientError)
    else:
        r, e = cx.raises(lambda: dev.read(100, 1, func), modbus.ModbusClientError)
    cx.check(isinstance(e, modbus.ModbusClientException), 'exception frame not reported as exception')
    cx.check(has_number(str(e), code), 'exception error does not carry the code')
    cx.reach('exception')


def serial_error(cx):
    """an operation of the serial port fails"""
    modbus = cx.mod(MODBUS)
    state = {'n': 0, 'fail': cx.choice('fail', list(range(0, 9))), 'on': False, 'hit': False}

    def fault(kind):
        if not state['on']:
            return
        i = state['n']
        state['n'] += 1
        if i == state['fail']:
            state['hit'] = True
            raise cx.choice('exc', [stubs.SerialException('gone'), OSError(5, 'I/O error'), stubs.SerialTimeoutException('Write timeout')] + odd_errors(kind)[:1])
    kind = cx.p['kind']

    def answer(req):
        return rtu_frame(req[:2] + be8(2) + b'\x12\x34') if kind == 'r' else rtu_frame(req[:6])
    modbus, bus, unit, dev = setup(cx, answer, lambda n: 1 if cx.p['bytewise'] else n, 17)
    bus.fault = bus.late = fault
    state['on'] = True
    f = lambda: dev.read(100, 1) if kind == 'r' else dev.write(100, b'\x00\x01')
    r, e = cx.raises(f, modbus.ModbusClientError)
    cx.check((e is not None) == state['hit'], 'a failing serial port raises a client error')
    if state['hit']:
        cx.reach('serial error')
    state['on'] = False
    r = f()
    if kind == 'r':
        cx.check(cx.same(r, b'\x12\x34'), 'works again after the fault')
    cx.reach('recovered')


def recover(cx):
    """after an arbitrary bad response the next exchange is unaffected"""
    bad = cx.bytes('bad', cx.p['bytes'])
    good = cx.bytes('good', 2)
    k = []

    def answer(req):
        k.append(1)
        if len(k) == 1:
            return bad
        return rtu_frame(req[:2] + be8(2) + good)
    modbus, bus, unit, dev = setup(cx, answer)
    r, e = cx.raises(lambda: dev.write(7, b'\x00\x01') if cx.p['kind'] == 'w' else dev.read(7, 1), modbus.ModbusClientError)
    r = dev.read(8, 1)
    cx.check(cx.same(r, good), 'works again after a bad response')
    cx.reach('recovered')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for n in (range(1, 5) if t else (1, 2)):
        for N in range(0, 15 if t else 11):
            out.append(('arbitrary_read', {'regs': n, 'bytes': N, 'splits': 2 if t and N < 12 else 1}))
    out.append(('arbitrary_read', {'regs': 1, 'bytes': 7, 'op': 4}))
    for N in range(0, 13 if t else 11):
        out.append(('arbitrary_write', {'bytes': N, 'splits': 2 if t else 1}))
    out.append(('arbitrary_write', {'bytes': 8, 'regs': 3}))
    for kind, op in (('r', 3), ('r', 4), ('w', 16)):
        for a in range(0, 256, 64):
            out.append(('codes', {'kind': kind, 'op': op, 'codes': list(range(a, a + 64))}))
    for kind in 'rw':
        for b in (False, True):
            out.append(('serial_error', {'kind': kind, 'bytewise': b}))
        for N in range(0, 9):
            out.append(('recover', {'kind': kind, 'bytes': N}))
    for n in (8, 60, 125):
        ats = list(range(9)) + [i for i in (10, 16, 31, 32, 63, 64, 99, 127, 128, 200, 250)]
        for how in ('short', 'changed'):
            out.append(('long', {'kind': 'r', 'regs': n, 'how': how, 'at': ats}))
            out.append(('long', {'kind': 'r', 'regs': n, 'how': how, 'at': ats[3:7], 'splits': 1 if n == 8 else 0}))
            out.append(('long', {'kind': 'w', 'regs': min(n, 123), 'how': how, 'at': ats}))
    for n in (1, 2, 60):
        for kind in 'rw':
            out.append(('long', {'kind': kind, 'regs': n, 'how': 'foreign', 'at': []}))
    return out
