"""C27 connections use the parameters given, and TLS is verified and never downgraded"""
from props.lib import *
from props.c07 import reply

CLIENT = 'sunspec.core.client'
META = {
    'bounds': {'quick': 'every baud rate 1..4000000, port 1..65535, timeout 0.001..60 s (in ms), unit id 0..255, each given or left to its default, given to the Modbus '
                        'device or to a client or scripting device; TLS against every combination of a server that is trusted or not (every pair of CA file and '
                        'issuing CA), matches the address or not (every pair of address and certified name), speaks TLS or not, accepts the client certificate or not, '
                        'with verification on or skipped, files that cannot be loaded, reads, writes and explicit connections; every combination of files left out or empty',
               'thorough': 'as quick with reads and writes of two requests and longer names'},
    'outside': 'the ssl module itself (modelled as its documented contract: what the settings of a context accept), servers with an untrusted certificate while '
               'verification is skipped, revocation',
    'reach': ['rtu', 'tcp', 'defaults', 'timeout given', 'tls works', 'wrong issuer', 'wrong name', 'plain server', 'client refused', 'skip', 'file missing', 'plain',
              'recovered', 'scan', 'scripting', 'no certificate', 'two devices', 'reconnected'],
}


class TlsConn(object):
    """a TLS session over a connection, like ssl.SSLSocket"""

    def __init__(self, peer, ctx, raw, hostname):
        self.peer, self.ctx, self.raw, self.hostname = peer, ctx, raw, hostname
        self.up = False
        raw.detached = True
        if raw.connected:
            self.do_handshake()

    def do_handshake(self):
        p, ctx = self.peer, self.ctx
        bad = None
        if not p.tls:
            bad = 'wrong version number'
        elif ctx.verify_mode != ssl().CERT_NONE and not p.trusted(ctx.cas):
            bad = 'certificate verify failed: unable to get local issuer certificate'
        elif ctx.check_hostname and not p.named(self.hostname):
            bad = 'certificate verify failed: IP address mismatch'
        elif not p.accepts(ctx.chain):
            bad = 'tlsv13 alert certificate required'
        if bad is not None:
            p.failed = bad
            raise ssl().SSLError(1, bad)
        self.up = True

    def connect(self, addr):
        self.raw.do_connect(addr)
        self.do_handshake()

    def sendall(self, data):
        if not self.up:
            raise OSError(32, 'Broken pipe')
        self.peer.secure.append((self.ctx, data))
        self.raw.do_send(data)

    def send(self, data):
        self.sendall(data)
        return len(data)

    write = send

    def recv(self, n=1024):
        if not self.up:
            raise OSError(107, 'Transport endpoint is not connected')
        return self.raw.do_recv(n)

    read = recv

    def settimeout(self, t):
        self.raw.settimeout(t)

    def gettimeout(self):
        return self.raw.timeout

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def unwrap(self):
        return self.raw

    def close(self):
        self.up = False
        self.raw.do_close()


class RawConn(Conn):
    """a connection that can be taken over by a TLS session"""
    detached = False

    def usable(self):
        if self.detached:
            raise OSError(9, 'Bad file descriptor')

    def connect(self, addr):
        self.usable()
        self.do_connect(addr)

    def do_connect(self, addr):
        self.timeouts = [self.timeout]
        Conn.connect(self, addr)

    def sendall(self, data):
        self.usable()
        self.net.plain.append(data)
        Conn.sendall(self, data)

    def do_send(self, data):
        Conn.sendall(self, data)

    def recv(self, n):
        self.usable()
        return Conn.recv(self, n)

    def do_recv(self, n):
        self.timeouts.append(self.timeout)
        return Conn.recv(self, n)

    def close(self):
        if not self.detached:
            Conn.close(self)

    def do_close(self):
        Conn.close(self)


class Peer(Net):
    """a server, speaking TLS or not"""

    def __init__(self, cx, answer, tls=True, ca=None, name=None, client=None):
        Net.__init__(self, cx, answer)
        self.tls, self.ca, self.name, self.client = tls, ca, name, client
        self.plain, self.secure, self.loads, self.missing = [], [], [], ()
        self.failed = None

    def install(self):
        stubs.install(socket=self.open, tls=self.tls_event)
        return self

    def open(self):
        c = RawConn(self)
        c.tx = b''
        self.conns.append(c)
        return c

    def tls_event(self, kind, ctx, *a):
        if kind == 'wrap':
            return TlsConn(self, ctx, *a)
        self.loads.append((kind,) + a)
        if kind in self.missing:
            raise FileNotFoundError(2, 'No such file or directory')

    def trusted(self, cas):
        return any(bool(c == self.ca) if c is not None and self.ca is not None else c is None and self.ca is None for c in cas)

    def named(self, host):
        return bool(host == self.name)

    def accepts(self, chain):
        return self.client is None or (chain is not None and bool(chain[0] == self.client[0]) and bool(chain[1] == self.client[1]))


def ssl():
    return stubs.STUBS['ssl']


def tcp_answer(req):
    n = (req[10] << 8) | req[11]
    if req[7] == 3:
        return reply(req, be8(3) + be8(2 * n) + bytes([(i * 7 + 1) & 255 for i in range(2 * n)]))
    return reply(req, req[7:12])


def up(net):
    return [c for c in net.conns if not c.closed]


def tls(cx):
    """a request over TLS: it works exactly with a server that is verified"""
    modbus = cx.mod(MODBUS)
    n = cx.p.get('chars', 2)
    host = '10.0.0.' + cx.chars('host', 1, 48, 57)
    cert = 'c' + cx.chars('cert', 1, 97, 122) + '.pem'
    key = 'k' + cx.chars('key', 1, 97, 122) + '.pem'
    ca = cx.chars('ca', n, 97, 122) + '.pem' if cx.p.get('ca', 1) else None
    skip = bool(cx.choice('skip', [0, 1]))
    kind = cx.choice('server', ['tls', 'plain'])
    issuer = cx.chars('issuer', n, 97, 122) + '.pem' if cx.choice('private', [1, 0]) else None
    name = '10.0.0.' + cx.chars('name', 1, 48, 57)
    wants = (('c' + cx.chars('wcert', 1, 97, 122) + '.pem'), key) if cx.choice('mutual', [0, 1]) else None
    net = Peer(cx, tcp_answer, kind == 'tls', issuer, name, wants).install()
    net.missing = cx.choice('missing', [(), ('ca',), ('chain',)])
    dev = modbus.ModbusClientDeviceTCP(5, host, 802, 3, tls=True, cafile=ca, certfile=cert, keyfile=key, insecure_skip_tls_verify=skip,
                                       max_count=cx.p.get('max', 125))
    op = cx.p['op']

    def go():
        if op == 'connect':
            dev.connect()
        if op == 'write':
            dev.write(7, b'\x01\x02\x03\x04')
            return None
        return dev.read(7, 2)
    r, e = cx.raises(go, modbus.ModbusClientError)
    trusted = (ca is None and issuer is None) or (ca is not None and issuer is not None and bool(ca == issuer))
    named = bool(host == name)
    client = wants is None or bool(wants[0] == cert)
    files = not net.missing or (net.missing == ('ca',) and ca is None)
    cx.check(net.plain == [], 'with TLS nothing is sent in plain')
    must_fail = not files or kind == 'plain' or not client or (not skip and not (trusted and named))
    must_work = files and kind == 'tls' and client and trusted and (skip or named)
    if must_fail:
        cx.check(e is not None, 'a server that cannot be verified is not talked to')
        cx.check(net.secure == [], 'nothing is sent to a server that is not verified')
        cx.check(not up(net), 'the connection to such a server is closed')
        cx.reach('file missing' if not files else 'plain server' if kind == 'plain' else 'client refused' if not client else
                 'wrong issuer' if not trusted else 'wrong name')
        # the device object stays usable
        net.missing, net.tls, net.ca, net.name, net.client = (), True, ca, host, None
        r, e = cx.raises(lambda: dev.read(7, 2), modbus.ModbusClientError)
        cx.check(e is None and net.plain == [], 'works over TLS once the server is right')
        cx.check(not up(net), 'connection opened by the call is closed')
        cx.reach('recovered')
    elif must_work:
        cx.check(e is None, 'a verified server is talked to')
        if e is None:
            cx.check(r is None or cx.same(r, tcp_answer(net.requests[-1])[9:]) or cx.p.get('max'), 'the answer is returned')
            cx.check(len(up(net)) == (1 if op == 'connect' else 0), 'only an explicit connection stays open')
            for ctx, data in net.secure:
                cx.check(ctx.chain is not None and cx.all([cx.same(ctx.chain[0], cert), cx.same(ctx.chain[1], key)]), 'the client certificate and key are used')
            cx.reach('skip' if skip else 'tls works')


def certless(cx):
    """TLS asked for with some of the files left out: never plain"""
    modbus = cx.mod(MODBUS)
    host = '10.0.0.' + cx.chars('host', 1, 48, 57)
    issuer = cx.choice('issuer', ['ca.pem', None])
    net = Peer(cx, tcp_answer, cx.choice('server', [True, False]), issuer, host).install()
    files = {}
    for k in ('cafile', 'certfile', 'keyfile'):
        v = cx.choice(k, [None, '', k + '.pem'] if k != 'cafile' else [None, 'ca.pem', ''])
        if v is not None or cx.p.get('pass'):
            files[k] = v
    if not files.get('certfile'):
        net.missing = ('chain',)
    if files.get('cafile') == '':
        net.missing += ('ca',)
    skip = bool(cx.choice('skip', [0, 1]))
    via = cx.p['via']
    if via == 'modbus':
        dev = modbus.ModbusClientDeviceTCP(5, host, 802, 3, tls=True, insecure_skip_tls_verify=skip, **files)
        err = modbus.ModbusClientError
    else:
        client = cx.mod(CLIENT)
        dev = client.ClientDevice(client.TCP, 5, ipaddr=host, ipport=802, timeout=3, tls=True, insecure_skip_tls_verify=skip, **files)
        err = client.SunSpecClientError
    op = cx.p['op']
    r, e = cx.raises(lambda: dev.connect() if op == 'connect' else dev.read(7, 2) if op == 'read' else dev.write(7, b'\1\2'), err)
    cx.check(net.plain == [], 'with TLS nothing is sent in plain')
    if e is None:
        cx.check(net.tls, 'a server that cannot be verified is not talked to')
        cx.check(all(getattr(c, 'detached', False) for c in net.conns), 'with TLS the connection is a TLS session')
        cx.check(op == 'connect' or net.secure != [], 'requests are sent over TLS')
        cx.check(skip or (issuer is None) == (files.get('cafile') is None), 'a server that cannot be verified is not talked to')
    else:
        cx.check(net.secure == [] and not up(net), 'the connection to such a server is closed')
    if not files.get('certfile'):
        cx.reach('no certificate')


def params(cx):
    """host, port, unit id and timeouts of a TCP device"""
    modbus = cx.mod(MODBUS)
    net = Peer(cx, tcp_answer, False).install()
    port = cx.int('port', 1, 65535) if cx.choice('hasport', [1, 0]) else None
    t = cx.int('ms', 1, 60000) / 1000 if cx.choice('hastimeout', [1, 0]) else None
    unit = cx.int('unit', 0, 255)
    host = '192.0.2.' + cx.chars('host', 1, 48, 57)
    kw = {}
    if cx.choice('junk', [0, 1]):
        kw = {'cafile': 'nx', 'certfile': 'nx', 'keyfile': 'nx'}
        net.missing = ('ca', 'chain')
    via = cx.p['via']
    if via == 'modbus':
        dev = modbus.ModbusClientDeviceTCP(unit, host, port, t, **kw)
    else:
        client = cx.mod(CLIENT)
        d = client.ClientDevice(client.TCP, unit, ipaddr=host, ipport=port, timeout=t, **kw)
        dev = d.modbus_device
    explicit = cx.choice('explicit', [0, 1, 2])
    want = 2 if t is None else t
    if explicit == 1:
        dev.connect()
    elif explicit == 2:
        want = cx.int('ctms', 1, 60000) / 1000
        dev.connect(want)
    r, e = cx.raises(lambda: dev.read(9, 1), modbus.ModbusClientError)
    cx.check(e is None, 'reads work')
    cx.check(net.loads == [] and net.secure == [], 'no TLS unless asked for')
    cx.check(len(net.conns) == 1, 'one connection')
    c = net.conns[0]
    cx.check(cx.all([cx.same(c.addr[0], host), c.addr[1] == (502 if port is None else port)]), 'connects to the given host and port')
    cx.check(c.timeouts[0] is not None and c.timeout is not None, 'operations have a timeout')
    cx.check(cx.all([c.timeouts[0] == want, c.timeout == want]), 'connecting and waiting use the given timeout')
    cx.check(cx.same(net.requests[0][6], unit), 'requests carry the unit id')
    if explicit:
        # the parameters of one connection are not those of the next
        dev.disconnect()
        r, e = cx.raises(lambda: dev.read(9, 1), modbus.ModbusClientError)
        cx.check(e is None and len(net.conns) == 2, 'a later call connects again')
        c, want = net.conns[1], 2 if t is None else t
        cx.check(cx.all([cx.same(c.addr[0], host), c.addr[1] == (502 if port is None else port)]), 'connects to the given host and port')
        cx.check(c.timeouts[0] is not None and c.timeout is not None, 'operations have a timeout')
        cx.check(cx.all([c.timeouts[0] == want, c.timeout == want]), 'a later connection uses the timeout of the device')
        cx.reach('reconnected')
    cx.reach('defaults' if port is None and t is None else 'timeout given' if t is not None else 'tcp')
    cx.reach('tcp')
    cx.reach('plain')


def serial_params(cx):
    """settings of the serial port"""
    modbus = cx.mod(MODBUS)
    bus = Bus(cx, lambda req: rtu_frame(req[:2] + be8(2) + req[2:4])).install()
    baud = cx.int('baud', 1, 4000000) if cx.choice('hasbaud', [1, 0]) else None
    parity = cx.choice('parity', [None, 'N', 'E'])
    t = cx.int('ms', 1, 60000) / 1000 if cx.choice('hastimeout', [1, 0]) else None
    unit = cx.int('unit', 0, 255)
    via = cx.p['via']
    pname = '/dev/symx' + cx.chars('name', 1, 65, 90)
    unit = cx.fork(unit) if via != 'modbus' else unit
    if via == 'modbus':
        dev = modbus.ModbusClientDeviceRTU(unit, pname, baud, parity, t)
    else:
        client = cx.mod(CLIENT)
        dev = client.ClientDevice(client.RTU, unit, name=pname, baudrate=baud, parity=parity, timeout=t).modbus_device
    p = bus.ports[0]
    cx.check(len(bus.ports) == 1 and cx.same(p.port, pname), 'the named port is opened')
    cx.check(p.baudrate == (9600 if baud is None else baud), 'at the given baud rate')
    cx.check(p.parity == ('N' if parity is None else parity), 'with the given parity')
    cx.check(p.kw.get('bytesize', 8) == 8 and p.kw.get('stopbits', 1) == 1 and not p.kw.get('xonxoff') and not p.kw.get('rtscts') and not p.kw.get('dsrdtr'),
             '8 data bits, 1 stop bit, no flow control')
    want = .5 if t is None else t
    cx.check(p.timeout is not None and p.write_timeout is not None, 'operations have a timeout')
    cx.check(cx.all([p.timeout == want, p.write_timeout == want]), 'with the given timeout')
    a = cx.int('addr', 0, 65535)
    r, e = cx.raises(lambda: dev.read(a, 1), modbus.ModbusClientError)
    cx.check(e is None and cx.same(r, be16(a)), 'reads work')
    cx.check(cx.same(bus.requests[0][0], unit), 'requests carry the slave id')
    cx.reach('rtu')


def pair(cx):
    """two TLS devices in one program: each uses its own files and settings"""
    modbus = cx.mod(MODBUS)
    files = {}
    for k in ('ca', 'c', 'k'):
        files[k] = k + cx.chars(k, 1, 97, 122) + '.pem'
    other = dict(files)
    differs = cx.choice('differs', ['ca', 'c', 'k', 'skip', 'host'])
    if differs in files:
        other[differs] = differs + cx.chars('other', 1, 97, 122) + '.pem'
    host = ['10.0.0.1', '10.0.0.2' if differs == 'host' else '10.0.0.1']
    skip = [bool(cx.choice('skip', [0, 1]))] * 2
    if differs == 'skip':
        skip[1] = not skip[0]
    via = cx.p['via']
    # a server that issued the certificates of the first or the second device
    first = cx.choice('serves', [0, 1])
    mine = (files, other)[first]
    net = Peer(cx, tcp_answer, True, mine['ca'], host[first], (mine['c'], mine['k'])).install()
    devs = []
    for i, f in enumerate((files, other)):
        kw = dict(tls=True, cafile=f['ca'], certfile=f['c'], keyfile=f['k'], insecure_skip_tls_verify=skip[i])
        if via == 'modbus':
            devs.append(modbus.ModbusClientDeviceTCP(5, host[i], 802, 3, **kw))
        else:
            client = cx.mod(CLIENT)
            devs.append(client.ClientDevice(client.TCP, 5, ipaddr=host[i], ipport=802, timeout=3, **kw))
    err = modbus.ModbusClientError if via == 'modbus' else cx.mod(CLIENT).SunSpecClientError
    order = cx.choice('order', [(0, 1), (1, 0), (0, 1, 0)])
    for i in order:
        f = (files, other)[i]
        n, m = len(net.secure), len(net.requests)
        r, e = cx.raises(lambda: devs[i].read(7, 2), err)
        trusted = bool(f['ca'] == mine['ca'])
        named = host[i] == host[first]
        known = bool(f['c'] == mine['c']) and bool(f['k'] == mine['k'])
        cx.check(net.plain == [], 'with TLS nothing is sent in plain')
        if not known or (not skip[i] and not (trusted and named)):
            cx.check(e is not None, 'a server that cannot be verified is not talked to')
            cx.check(len(net.secure) == n, 'nothing is sent to a server that is not verified')
        elif trusted:
            cx.check(e is None and len(net.requests) == m + 1, 'a verified server is talked to')
        for ctx, data in net.secure[n:]:
            cx.check(ctx.chain is not None and cx.all([cx.same(ctx.chain[0], f['c']), cx.same(ctx.chain[1], f['k'])]), 'the client certificate and key are used')
        cx.reach('two devices')


SHAPE = Shape(['uint16', 'uint16'], mid=64121, name='small')


def scanned(cx):
    """client and scripting devices pass all parameters on"""
    modbus = cx.mod(MODBUS)
    client = cx.mod(CLIENT)
    use_defs(cx, {SHAPE.mid: SHAPE.xml()})
    mem = {40000: b'Su', 40001: b'nS', 40002: be16(SHAPE.mid), 40003: be16(2), 40004: be16(cx.int('v', 0, 65534)), 40005: b'\x00\x07', 40006: b'\xff\xff'}
    slave = Slave(cx, mem)
    host = '10.1.0.' + cx.chars('host', 1, 48, 57)
    ca, cert, key = [s + cx.chars(s, 1, 97, 122) for s in ('ca', 'cert', 'key')]
    port = cx.int('port', 1, 65535)
    t = cx.int('ms', 1, 60000) / 1000
    unit = cx.choice('unit', [0, 126, 255])
    secure = cx.choice('tls', [0, 1])
    skip = cx.choice('skip', [0, 1])
    name = '10.1.0.' + cx.chars('name', 1, 48, 57)
    net = Peer(cx, slave.tcp(unit), bool(secure), ca, name, (cert, key)).install()
    kw = {'ipaddr': host, 'ipport': port, 'timeout': t, 'tls': bool(secure), 'cafile': ca, 'certfile': cert, 'keyfile': key, 'insecure_skip_tls_verify': bool(skip)}

    def go():
        if cx.p['via'] == 'scripting':
            d = client.SunSpecClientDevice(client.TCP, unit, **kw)
            d.read()
            return d.small.F0, d.device
        d = client.ClientDevice(client.TCP, unit, **kw)
        d.scan()
        d.read_points()
        return d.models_list[0].blocks[0].points_list[0].value, d
    r, e = cx.raises(go, client.SunSpecClientError)
    ok = not secure or skip or bool(host == name)
    cx.check((e is None) == ok, 'works exactly with a server that is verified')
    cx.check(net.secure == [] if not secure else net.plain == [], 'TLS is used exactly when asked for')
    if e is None and ok:
        cx.check(cx.same(be16(r[0]), mem[40004]), 'values are read')
        cx.check(cx.all([cx.same(c.addr[0], host) for c in net.conns] + [c.addr[1] == port for c in net.conns]), 'connects to the given host and port')
        cx.check(cx.all([c.timeout == t for c in net.conns]), 'with the given timeout')
        cx.check(all(q[6] == unit for q in net.requests), 'requests carry the unit id')
        for ctx, data in net.secure:
            cx.check(cx.all([cx.same(ctx.chain[0], cert), cx.same(ctx.chain[1], key)]), 'the client certificate and key are used')
        cx.reach(cx.p['via'] if cx.p['via'] == 'scripting' else 'scan')
    else:
        cx.check(net.secure == [], 'nothing is sent to a server that is not verified')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for op in ('read', 'write', 'connect'):
        for ca in (1, 0):
            out.append(('tls', {'op': op, 'ca': ca}))
            if th:
                out.append(('tls', {'op': op, 'ca': ca, 'max': 1, 'chars': 4}))
    for op in ('read', 'write', 'connect'):
        for via in ('modbus', 'client') if op != 'connect' else ('modbus',):
            out.append(('certless', {'op': op, 'via': via}))
            out.append(('certless', {'op': op, 'via': via, 'pass': 1}))
    for via in ('modbus', 'client'):
        out.append(('params', {'via': via}))
        out.append(('serial_params', {'via': via}))
    for via in ('modbus', 'client'):
        out.append(('pair', {'via': via}))
    for via in ('client', 'scripting'):
        out.append(('scanned', {'via': via}))
    return out
