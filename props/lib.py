"""Shared oracles and fakes.  Runs symbolically (instrumented) and natively (plain)."""
from symx import stubs

MODBUS = 'sunspec.core.modbus.client'


def crc16(data):
    """Modbus CRC-16 written bit by bit from the specification; returns the two bytes as sent."""
    crc = 0xffff
    for b in data:
        crc = crc ^ b
        for _ in range(8):
            lsb = crc & 1
            # polynomial 0xA001 = bits 15, 13 and 0
            crc = (crc >> 1) ^ (lsb << 15) ^ (lsb << 13) ^ lsb
    return be8(crc & 0xff) + be8((crc >> 8) & 0xff)


def be8(v):
    return bytes([v])


def be16(v):
    return bytes([(v >> 8) & 0xff, v & 0xff])


def be32(v):
    return be16((v >> 16) & 0xffff) + be16(v & 0xffff)


def be64(v):
    return be32((v >> 32) & 0xffffffff) + be32(v & 0xffffffff)


def u16(b):
    return (b[0] << 8) | b[1]


def rtu_frame(body):
    return body + crc16(body)


# ------------------------------------------------------------------ serial port
class Port(object):
    """A serial port.  respond(port, request_bytes) gives the answer to a request; bytes are
    delivered in pieces chosen by `pieces(k, available)` (how many bytes this read returns)."""

    def __init__(self, bus, kw):
        self.bus = bus
        self.kw = kw
        self.port = kw.get('port')
        self.baudrate = kw.get('baudrate')
        self.parity = kw.get('parity')
        self.timeout = kw.get('timeout')
        self.write_timeout = kw.get('write_timeout', kw.get('writeTimeout'))
        self.rx = b''
        self.is_open = True
        self.closes = 0

    @property
    def writeTimeout(self):
        return self.write_timeout

    @writeTimeout.setter
    def writeTimeout(self, t):
        self.write_timeout = t

    def need_open(self):
        if not self.is_open:
            raise stubs.SerialException('port is closed')

    def flushInput(self):
        self.need_open()
        self.bus.event(self, 'flush')
        self.rx = b''

    reset_input_buffer = flushInput

    def flushOutput(self):
        self.need_open()

    reset_output_buffer = flushOutput

    def flush(self):
        self.need_open()

    @property
    def in_waiting(self):
        return len(self.rx)

    def inWaiting(self):
        return len(self.rx)

    def write(self, data):
        self.need_open()
        self.bus.on_write(self, data)
        return len(data)

    def read(self, size=1):
        self.need_open()
        return self.bus.on_read(self, size)

    def open(self):
        self.is_open = True
        self.bus.event(self, 'open')

    def isOpen(self):
        return self.is_open

    def close(self):
        self.closes += 1
        self.is_open = False
        self.bus.event(self, 'close')


class Bus(object):
    """What happens on the serial ports.  Subclass hooks: answer(request) -> bytes."""

    def __init__(self, cx, answer=None, split=None, stale=b''):
        self.cx = cx
        self.answer_fn = answer
        self.split = split
        self.stale = stale
        self.ports = []
        self.log = []           # (port, kind, data)
        self.requests = []
        self.fault = None       # callable(kind) called before an operation; may raise
        self.late = None        # the same after a request was delivered

    def install(self):
        stubs.install(serial=self.open)
        return self

    def open(self, *a, **kw):
        names = ('port', 'baudrate', 'bytesize', 'parity', 'stopbits', 'timeout')
        for n, v in zip(names, a):
            kw[n] = v
        if self.fault is not None:
            self.fault('open')
        p = Port(self, kw)
        p.rx = self.stale
        self.ports.append(p)
        self.log.append((p, 'open', None))
        return p

    def event(self, port, kind, data=None):
        if self.fault is not None:
            self.fault(kind)
        self.log.append((port, kind, data))

    def on_write(self, port, data):
        self.event(port, 'write', data)
        self.requests.append(data)
        if self.answer_fn is not None:
            port.rx = port.rx + self.answer_fn(data)
        if self.late is not None:
            self.late('written')

    def on_read(self, port, size):
        if self.fault is not None:
            self.fault('read')
        self.log.append((port, 'read', None))
        avail = len(port.rx)
        if avail == 0:
            return b''
        n = avail
        if size < avail:
            n = self.cx.fork(size)
            if n <= 0:
                return b''
        if self.split is not None:
            n = self.split(n)
        r = port.rx[:n]
        port.rx = port.rx[n:]
        return r


def any_split(cx, limit=None):
    """deliver any number 1..n of the bytes that could be returned (complete case split)"""
    state = {'left': limit}

    def split(n):
        if n == 1:
            return 1
        if state['left'] is not None:
            if state['left'] <= 0:
                return n
            state['left'] -= 1
        return cx.choice('piece', list(range(1, n + 1)))
    return split


# ------------------------------------------------------------------ a Modbus slave with registers
class Slave(object):
    """Register memory and the Modbus functions 3, 4 and 16 (PDU level)."""

    def __init__(self, cx, mem):
        self.cx = cx
        self.mem = mem          # dict register address -> 2 bytes
        self.pdus = []
        self.writes = []

    def pdu(self, p):
        """answer to request PDU p (function code first); symbolic addresses/counts are case split"""
        self.pdus.append(p)
        f = self.cx.fork(p[0])
        addr = self.cx.fork(u16(p[1:3]))
        count = self.cx.fork(u16(p[3:5]))
        if f in (3, 4):
            if len(p) != 5 or count < 1 or count > 125:
                return bytes([f | 0x80, 3])
            out = b''
            for i in range(addr, addr + count):
                if i not in self.mem:
                    return bytes([f | 0x80, 2])
                out = out + self.mem[i]
            return bytes([f, count * 2]) + out
        if f == 16:
            if len(p) != 6 + 2 * count or self.cx.fork(p[5]) != count * 2 or count < 1 or count > 125:
                return bytes([f | 0x80, 3])
            for i in range(count):
                if addr + i not in self.mem:
                    return bytes([f | 0x80, 2])
            for i in range(count):
                self.mem[addr + i] = p[6 + 2 * i:8 + 2 * i]
                self.writes.append((addr + i, p[6 + 2 * i:8 + 2 * i]))
            return p[:5]
        return bytes([f | 0x80, 1])

    def rtu(self, unit):
        def answer(req):
            if len(req) < 4 or not bool(self.cx.all([req[0] == unit, req[-2:] == crc16(req[:-2])])):
                return b''
            return rtu_frame(req[:1] + self.pdu(req[1:-2]))
        return answer

    def tcp(self, unit):
        def answer(req):
            if len(req) < 8 or not bool(self.cx.all([u16(req[2:4]) == 0, u16(req[4:6]) == len(req) - 6, req[6] == unit])):
                return None
            r = req[6:7] + self.pdu(req[7:])
            return req[0:4] + be16(len(r)) + r
        return answer


def regs(cx, name, base, n):
    """n symbolic registers at base"""
    d = cx.bytes(name, 2 * n)
    return dict((base + i, d[2 * i:2 * i + 2]) for i in range(n))


# ------------------------------------------------------------------ TCP
class Conn(object):
    def __init__(self, net):
        self.net = net
        self.rx = b''
        self.closed = False
        self.connected = False
        self.addr = None
        self.timeout = None
        self.eof = False

    def settimeout(self, t):
        self.timeout = t

    def setblocking(self, b):
        pass

    def setsockopt(self, *a):
        pass

    def gettimeout(self):
        return self.timeout

    def fileno(self):
        return -1 if self.closed else 99

    def connect(self, addr):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        self.net.event(self, 'connect')
        self.addr = addr
        self.connected = True

    def sendall(self, data):
        if self.closed or not self.connected:
            raise OSError(32, 'Broken pipe')
        self.net.event(self, 'send')
        self.net.on_send(self, data)

    def send(self, data):
        # may take only part of the data
        n = len(data)
        if n > 1 and not self.net.short_send:
            self.net.short_send = True
            n = self.net.cx.choice('sent', [n, 1, n - 1])
        self.sendall(data[:n])
        return n

    def recv(self, n):
        if self.closed or not self.connected:
            raise OSError(107, 'Transport endpoint is not connected')
        self.net.event(self, 'recv')
        return self.net.on_recv(self, n)

    def recv_into(self, buf, n=0):
        d = self.recv(n or len(buf))
        buf[:len(d)] = d
        return len(d)

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True
        self.net.event(self, 'close')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Net(object):
    """TCP peers.  answer(request) -> bytes (None: no answer).  Requests may arrive in any number of
    send calls; a request is complete when its Modbus/TCP header length is satisfied."""

    def __init__(self, cx, answer=None, split=None, raw=False):
        self.cx = cx
        self.answer_fn = answer
        self.split = split
        self.conns = []
        self.log = []
        self.requests = []
        self.fault = None
        self.late = None
        self.raw = raw
        self.short_send = False

    def install(self):
        stubs.install(socket=self.open)
        return self

    def open(self):
        if self.fault is not None:
            self.fault('socket')
        c = Conn(self)
        c.tx = b''
        self.conns.append(c)
        self.log.append((c, 'socket'))
        return c

    def event(self, conn, kind):
        self.log.append((conn, kind))
        if self.fault is not None:
            self.fault(kind)

    def on_send(self, conn, data):
        conn.tx = conn.tx + data
        if self.raw:
            self.deliver(conn, conn.tx)
            conn.tx = b''
            return
        while len(conn.tx) >= 6:
            n = self.cx.fork(u16(conn.tx[4:6])) + 6
            if len(conn.tx) < n:
                return
            req, conn.tx = conn.tx[:n], conn.tx[n:]
            self.deliver(conn, req)

    def deliver(self, conn, req):
        self.requests.append(req)
        if self.answer_fn is not None:
            r = self.answer_fn(req)
            if r is not None:
                conn.rx = conn.rx + r
        if self.late is not None:
            self.late('sent')

    def on_recv(self, conn, size):
        avail = len(conn.rx)
        if avail == 0:
            if conn.eof:
                return b''
            raise stubs.STUBS['socket'].timeout('timed out')
        n = avail
        if size < avail:
            n = self.cx.fork(size)
            if n <= 0:
                return b''
        if self.split is not None:
            n = self.split(n)
        r = conn.rx[:n]
        conn.rx = conn.rx[n:]
        return r


# ------------------------------------------------------------------ model definitions
class TermiosError(Exception):
    """like termios.error: raised when the buffers of a vanished port are flushed; not an OSError"""


def odd_errors(kind):
    """what the operating system interfaces raise besides OSError"""
    if kind in ('connect',):
        return [OverflowError('connect(): port must be 0-65535.'), UnicodeError('label empty or too long')]
    if kind in ('flush', 'flushInput', 'read', 'write'):
        return [TermiosError(5, 'Input/output error'), TypeError("'NoneType' object cannot be interpreted as an integer")]
    if kind == 'open':
        return [ValueError('Not a valid baudrate: 7'), TermiosError(25, 'Inappropriate ioctl for device')]
    if kind in ('send', 'recv', 'sent'):
        return [ValueError('read of closed file')]
    return []


class Defs(object):
    """A path list holding model definitions and other documents by file name."""

    def __init__(self, files=None):
        self.files = dict(files or {})

    def add(self, path):
        pass

    def read(self, name):
        if name not in self.files:
            raise NameError(name)
        return self.files[name]


def point(pid, ptype, offset, plen=None, sf=None, access=None, mandatory=None, units=None, symbols=()):
    s = '<point id="' + pid + '" offset="' + str(offset) + '" type="' + ptype + '"'
    for k, v in (('len', plen), ('sf', sf), ('access', access), ('mandatory', mandatory), ('units', units)):
        if v is not None:
            s += ' ' + k + '="' + str(v) + '"'
    if not symbols:
        return s + ' />'
    s += '>'
    for sid, v in symbols:
        s += '<symbol id="' + sid + '">' + str(v) + '</symbol>'
    return s + '</point>'


def block(points, blen, btype=None, name=None):
    s = '<block len="' + str(blen) + '"'
    if btype is not None:
        s += ' type="' + btype + '"'
    if name is not None:
        s += ' name="' + name + '"'
    return s + '>' + ''.join(points) + '</block>'


def model_xml(mid, mlen, blocks, name=None, strings=''):
    s = '<sunSpecModels v="1"><model id="' + str(mid) + '" len="' + str(mlen) + '"'
    if name is not None:
        s += ' name="' + name + '"'
    return s + '>' + ''.join(blocks) + '</model>' + strings + '</sunSpecModels>'


def fname(mid):
    return 'smdx_%05d.xml' % mid


def use_defs(cx, defs):
    """make the definitions {model id: xml} available to the device module"""
    device = cx.mod('sunspec.core.device')
    d = Defs(dict((fname(k), v) for k, v in defs.items()))
    device.file_pathlist = d
    return d


class FakeModbus(object):
    """Stands at the modbus_device interface of a ClientDevice: a register memory with a log."""

    def __init__(self, cx, mem):
        self.cx = cx
        self.mem = mem
        self.log = []           # ('r', addr, count) / ('w', addr, data)
        self.fault = None       # callable(kind, index) may raise
        self.late = None        # the same, after a write was executed
        self.closed = 0

    def read(self, addr, count, op=None):
        modbus = self.cx.mod(MODBUS)
        addr = self.cx.fork(addr)
        count = self.cx.fork(count)
        self.log.append(('r', addr, count))
        if self.fault is not None:
            r = self.fault('r', len(self.log) - 1)
            if r is not None:
                return r
        out = b''
        for i in range(addr, addr + count):
            if i not in self.mem:
                raise modbus.ModbusClientException('Modbus exception 2')
            out = out + self.mem[i]
        return out

    def write(self, addr, data):
        modbus = self.cx.mod(MODBUS)
        addr = self.cx.fork(addr)
        self.log.append(('w', addr, data))
        if self.fault is not None:
            self.fault('w', len(self.log) - 1)
        if len(data) % 2:
            raise modbus.ModbusClientError('odd write')
        for i in range(len(data) // 2):
            if addr + i not in self.mem:
                raise modbus.ModbusClientException('Modbus exception 2')
        for i in range(len(data) // 2):
            self.mem[addr + i] = data[2 * i:2 * i + 2]
        if self.late is not None:
            self.late('w', len(self.log) - 1)

    def close(self):
        self.closed += 1


def client_device(cx, mem):
    """A ClientDevice over a fake Modbus device with the given registers."""
    client = cx.mod('sunspec.core.client')
    d = client.ClientDevice(None)
    d.modbus_device = FakeModbus(cx, mem)
    return d


def has_number(text, n):
    """does the message contain n as a number (decimal or 0x hex)?"""
    import re
    for m in re.findall('0[xX][0-9a-fA-F]+|[0-9]+', text):
        if int(m, 0 if m[:2].lower() == '0x' else 10) == n:
            return True
    return False


# ------------------------------------------------------------------ SunSpec point types
INT_TYPES = {'int16': (1, True), 'uint16': (1, False), 'count': (1, False), 'acc16': (1, False), 'enum16': (1, False),
             'bitfield16': (1, False), 'int32': (2, True), 'uint32': (2, False), 'acc32': (2, False), 'enum32': (2, False),
             'bitfield32': (2, False), 'ipaddr': (2, False), 'int64': (4, True), 'uint64': (4, False), 'acc64': (4, False),
             'sunssf': (1, True)}
TYPE_LEN = dict((t, v[0]) for t, v in INT_TYPES.items())
TYPE_LEN.update({'float32': 2, 'ipv6addr': 8, 'eui48': 4, 'pad': 1})
# the SunSpec "not implemented" register patterns
SENTINEL = {'int16': b'\x80\0', 'uint16': b'\xff\xff', 'count': b'\xff\xff', 'acc16': b'\0\0', 'enum16': b'\xff\xff', 'bitfield16': b'\xff\xff',
            'int32': b'\x80\0\0\0', 'uint32': b'\xff' * 4, 'acc32': b'\0' * 4, 'enum32': b'\xff' * 4, 'bitfield32': b'\xff' * 4,
            'ipaddr': b'\0' * 4, 'int64': b'\x80' + b'\0' * 7, 'uint64': b'\xff' * 8, 'acc64': b'\0' * 8, 'sunssf': b'\x80\0',
            'ipv6addr': b'\0' * 16, 'eui48': b'\0\0' + b'\xff' * 6}
SCALABLE = ['int16', 'uint16', 'acc16', 'int32', 'uint32', 'acc32', 'int64', 'uint64', 'acc64']


def int_range(t):
    n, signed = INT_TYPES[t]
    b = 16 * n
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)


def hexup(b):
    return b.hex().upper()


def decode(t, d):
    """the value the SunSpec encoding of type t assigns to the registers d (implemented values only)"""
    import struct
    if t in INT_TYPES:
        return int.from_bytes(d, 'big', signed=INT_TYPES[t][1])
    if t == 'float32':
        return struct.unpack('>f', d)[0]
    if t == 'ipv6addr':
        return ':'.join([hexup(d[4 * i:4 * i + 4]) for i in range(4)])
    if t == 'eui48':
        return ':'.join([hexup(d[2 + i:3 + i]) for i in range(6)])
    raise ValueError(t)


def encode(t, v, n=None):
    """registers of an integer value"""
    return {1: be16, 2: be32, 4: be64}[TYPE_LEN[t]](v)


def regmem(addr, data):
    return dict((addr + i, data[2 * i:2 * i + 2]) for i in range(len(data) // 2))


def load_model(cx, mid, addr, mlen, dev):
    client = cx.mod('sunspec.core.client')
    m = client.ClientModel(dev, mid, addr, mlen)
    m.load()
    dev.add_model(m)
    return m


class Shape(object):
    """A model definition with its layout: fixed and rep are lists of dicts (id, type, len, sf, access)."""

    def __init__(self, fixed, rep=None, mid=64100, name=None, rep_name=None, order=None):
        self.order = order      # of the points in the definition: by offset, 'rev' or 'mixed'
        self.fixed = [self.entry(e, 'F%d' % i) for i, e in enumerate(fixed)]
        self.rep = [self.entry(e, 'R%d' % i) for i, e in enumerate(rep or [])]
        self.mid = mid
        self.name = name
        self.rep_name = rep_name
        self.flen = sum(e['len'] for e in self.fixed)
        self.rlen = sum(e['len'] for e in self.rep)

    @staticmethod
    def entry(e, pid):
        e = dict(e) if isinstance(e, dict) else {'type': e}
        e.setdefault('id', pid)
        e.setdefault('len', TYPE_LEN.get(e['type'], 1))
        return e

    def xml(self):
        def pts(spec):
            out, off = [], 0
            for e in spec:
                out.append(point(e['id'], e['type'], off, e['len'] if e['type'] == 'string' else None, e.get('sf'), e.get('access'),
                                 e.get('mandatory'), e.get('units'), e.get('symbols', ())))
                off += e['len']
            return out[::-1] if self.order == 'rev' else out[1::2] + out[::2] if self.order == 'mixed' else out
        bs = [block(pts(self.fixed), self.flen)]
        if self.rep:
            bs.append(block(pts(self.rep), self.rlen, 'repeating', self.rep_name))
        return model_xml(self.mid, self.flen + self.rlen, bs, self.name)

    def total(self, n=0):
        return self.flen + n * self.rlen

    def places(self, base, n=0):
        """(block index, entry, address) of every register range, in address order"""
        out = []
        a = base
        for bi in range(1 + n):
            for e in self.rep if bi else self.fixed:
                out.append((bi, e, a))
                a += e['len']
        return out


def the_point(m, bi, e):
    b = m.blocks[bi]
    return (b.points_sf if e['type'] == 'sunssf' else b.points)[e['id']]


def implemented(cx, t, name, ln=1):
    """register contents (bytes) of an implemented value of the type; symbolic where that stays cheap"""
    if t == 'string':
        return bytes([65 + i % 26 for i in range(2 * ln - 1)]) + b'\0'
    if t in ('ipv6addr', 'eui48'):
        return b'\0\0' + bytes([0x20 + i for i in range(2 * TYPE_LEN[t] - 2)])
    if t == 'pad':
        return b'\x80\0'
    d = cx.bytes(name, 2 * TYPE_LEN[t])
    if t == 'float32':
        cx.assume(cx.not_(cx.all([(d[0] & 0x7f) == 0x7f, d[1] >= 0x80])))
    else:
        cx.assume(cx.not_(d == SENTINEL[t]))
    return d


def among(cx, name, n, alphabet):
    """n arbitrary characters of the alphabet"""
    cs = sorted(alphabet)
    s = cx.chars(name, n, ord(cs[0]), ord(cs[-1]))
    for c in s:
        cx.assume(cx.any([c == x for x in cs]))
    return s
