"""C06 the RTU checksum is the Modbus CRC-16 for every message"""
from props.lib import *

META = {
    'bounds': {'quick': 'requests: every read request; write requests of 1..24, 61, 123 registers, all register/address/unit values; '
                        'responses: 1..12, 64, 125 registers, every CRC field value; computeCRC and checkCRC on messages of 0..17, 254, 256 bytes; corruption: every burst of at most 16 bits in a 4-register response, '
                        'every one- and two-bit error in a 4-register response',
               'thorough': 'write requests of 1..123 registers; responses 1..125 registers; bursts in 1..24-register responses; '
                           'one- and two-bit errors in up to 125-register responses'},
    'outside': 'longer messages (the RTU frame limit is 256 bytes); corruption of the byte-count field (changes the framing, C05)',
    'reach': ['write-request', 'read-request', 'accepted', 'rejected', 'burst', 'twobit', 'direct', 'echo accepted', 'echo rejected'],
    'thorough': {'budget': 600},
}


def device(cx, answer, **kw):
    modbus = cx.mod(MODBUS)
    bus = Bus(cx, answer).install()
    unit = cx.int('unit', 0, 247)
    return modbus, bus, unit, modbus.ModbusClientDeviceRTU(unit, '/dev/symx', **kw)


def write_request(cx):
    n = cx.p['regs']
    modbus, bus, unit, dev = device(cx, None)
    addr = cx.int('addr', 0, 65535 - n)
    data = cx.bytes('data', 2 * n)
    _r, e = cx.raises(lambda: dev.write(addr, data), modbus.ModbusClientError)
    cx.check(len(bus.requests) == 1, 'one request')
    req = bus.requests[0]
    cx.check(cx.same(req[-2:], crc16(req[:-2])), 'request ends with the CRC-16 of what precedes, low byte first')
    cx.reach('write-request')


def read_request(cx):
    modbus, bus, unit, dev = device(cx, None)
    addr = cx.int('addr', 0, 65535)
    count = cx.int('count', 1, 125)
    op = cx.choice('op', [3, 4])
    _r, e = cx.raises(lambda: dev.read(addr, count, op), modbus.ModbusClientError)
    cx.check(len(bus.requests) == 1, 'one request')
    req = bus.requests[0]
    cx.check(cx.same(req[-2:], crc16(req[:-2])), 'request ends with the CRC-16 of what precedes, low byte first')
    cx.reach('read-request')


def response(cx):
    """any CRC field: accepted exactly when it is the CRC of the frame"""
    n = cx.p['regs']
    data = cx.bytes('data', 2 * n)
    crc = cx.bytes('crc', 2)
    frame = []

    def answer(req):
        frame.append(req[:2] + be8(2 * n) + data)
        return frame[0] + crc
    modbus, bus, unit, dev = device(cx, answer)
    r, e = cx.raises(lambda: dev.read(7, n), modbus.ModbusClientError)
    ok = cx.same(crc, crc16(frame[0]))
    if e is None:
        cx.reach('accepted')
        cx.check(ok, 'a frame with a wrong CRC was accepted')
        cx.check(cx.same(r, data), 'payload')
    else:
        cx.reach('rejected')
        cx.check(cx.not_(ok), 'a frame with the right CRC was rejected')


def echo(cx):
    crc = cx.bytes('crc', 2)
    frame = []

    def answer(req):
        frame.append(req[:6])
        return req[:6] + crc
    modbus, bus, unit, dev = device(cx, answer)
    r, e = cx.raises(lambda: dev.write(9, cx.bytes('data', 4)), modbus.ModbusClientError)
    ok = cx.same(crc, crc16(frame[0]))
    if e is None:
        cx.reach('echo accepted')
        cx.check(ok, 'a write response with a wrong CRC was accepted')
    else:
        cx.reach('echo rejected')
        cx.check(cx.not_(ok), 'a write response with the right CRC was rejected')


def corrupted(cx, n, err, pos):
    """response of n registers whose payload+CRC bytes from pos on are xored with err"""
    data = cx.bytes('data', 2 * n)

    def answer(req):
        f = rtu_frame(req[:2] + be8(2 * n) + data)
        return f[:pos] + bytes([f[pos + i] ^ err[i] for i in range(len(err))]) + f[pos + len(err):]
    modbus, bus, unit, dev = device(cx, answer)
    r, e = cx.raises(lambda: dev.read(0, n), modbus.ModbusClientError)
    cx.check(e is not None, 'corrupted response accepted')


def burst(cx):
    """any nonzero error pattern inside 16 consecutive bits (starting at any bit)"""
    n = cx.p['regs']
    nbits = (2 * n + 2) * 8
    start = cx.choice('start', cx.p['starts'])
    e = cx.int('pattern', 1, 0xffff)
    # bits are numbered as they travel on the line: least significant bit of each byte first
    first = start // 8
    v = e << (start % 8)
    width = min(3, 2 * n + 2 - first)
    cx.assume((v >> (8 * width)) == 0)
    err = [(v >> (8 * i)) & 0xff for i in range(width)]
    corrupted(cx, n, err, 3 + first)
    cx.reach('burst')


def twobit(cx):
    n = cx.p['regs']
    m = 2 * n + 2
    i = cx.choice('i', cx.p['bytes'])
    j = cx.choice('j', [k for k in range(m) if k >= i])
    a = cx.int('bit-a', 0, 7)
    b = cx.int('bit-b', 0, 7)
    err = [0] * (j - i + 1)
    err[0] = err[0] ^ (1 << a)
    if i != j:
        err[-1] = err[-1] ^ (1 << b)
    elif cx.bool('second'):
        cx.assume(a != b)
        err[0] = err[0] ^ (1 << b)
    corrupted(cx, n, err, 3 + i)
    cx.reach('twobit')


def direct(cx):
    """the checksum functions themselves"""
    modbus = cx.mod(MODBUS)
    data = cx.bytes('data', cx.p['n'])
    c = crc16(data)
    want = (c[0] << 8) | c[1]
    cx.check(cx.same(modbus.computeCRC(data), want), 'computeCRC is the CRC-16 of the message')
    v = cx.int('check', 0, 0xffff)
    cx.check(cx.iff(v == want, bool(modbus.checkCRC(data, v))), 'checkCRC accepts exactly the CRC-16 of the message')
    cx.reach('direct')


def cases(tier):
    out = [('read_request', {}), ('echo', {})]
    t = tier == 'thorough'
    for n in range(1, 124) if t else list(range(1, 25)) + [61, 123]:
        out.append(('write_request', {'regs': n}))
    for n in (list(range(0, 65)) + [126, 253, 254, 255, 256, 300]) if t else [0, 1, 2, 5, 17, 254, 256]:
        out.append(('direct', {'n': n}))
    for n in range(1, 126) if t else list(range(1, 13)) + [64, 125]:
        out.append(('response', {'regs': n}))
    for n in range(1, 25) if t else [4]:
        ss = list(range((2 * n + 2) * 8))
        for k in range(0, len(ss), 16):
            out.append(('burst', {'regs': n, 'starts': ss[k:k + 16]}))
    for n in [1, 2, 4, 8, 16, 32, 64, 125] if t else [4]:
        for i in range(2 * n + 2):
            out.append(('twobit', {'regs': n, 'bytes': [i]}))
    return out
