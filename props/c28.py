"""C28 the command-line program lists every implemented point once, with its value and units"""
from props.lib import *

META = {
    'bounds': {'quick': 'RTU, TCP and mapped devices with up to four models (two of one kind, one without a definition), 0..2, 12 and 130 repeating blocks, points of 11 types with '
                        'labels, units and scale factors or without; every 16-bit and 32-bit register value; every combination of unimplemented points in turn; '
                        'the command-line options given or defaulted; unknown transport types, devices that do not answer or have no SunSpec map',
               'thorough': 'as quick with 0..3 repeating blocks'},
    'outside': 'the timestamp line, failures of a read after a successful scan, option texts that are not numbers',
    'reach': ['listed', 'repeating', 'unimplemented', 'no definition', 'error', 'rtu', 'tcp', 'mapped', 'scaled', 'options', 'bitfield'],
}
LABELS = {'A0': 'Alpha', 'A1': 'Power now'}
MAIN = Shape([{'type': 'uint16', 'id': 'A0', 'units': 'V'}, {'type': 'int16', 'id': 'A1', 'sf': 'SF', 'units': 'W'}, {'type': 'sunssf', 'id': 'SF'},
              {'type': 'bitfield16', 'id': 'A3'}, {'type': 'pad', 'id': 'PAD'}, {'type': 'enum16', 'id': 'A4'}, {'type': 'uint32', 'id': 'A5', 'units': 'Wh'},
              {'type': 'bitfield32', 'id': 'A6'}, {'type': 'string', 'len': 4, 'id': 'A7'}], mid=64131, name='main')
REP = Shape([{'type': 'uint16', 'id': 'N'}], [{'type': 'int16', 'id': 'X'}, {'type': 'acc32', 'id': 'Y', 'units': 'VAh'}, {'type': 'int32', 'id': 'Z'},
              {'type': 'bitfield32', 'id': 'W'}, {'type': 'bitfield16', 'id': 'V', 'units': 'x'}, {'type': 'string', 'len': 4, 'id': 'T'}, {'type': 'enum16', 'id': 'U'}], mid=64132, name='rep')
SHAPES = {64131: MAIN, 64132: REP}


def definition(shape):
    x = shape.xml()
    t = {64131: ('Main model', {'A0': 'Alpha', 'A1': 'Power now', 'A3': 'Flags'}), 64132: (None, {'X': 'Ex', 'N': 'Count'})}[shape.mid]
    s = '<strings id="%d" locale="en">' % shape.mid
    if t[0]:
        s += '<model><label>%s</label></model>' % t[0]
    for pid in sorted(t[1]):
        s += '<point id="%s"><label>%s</label></point>' % (pid, t[1][pid])
    return x.replace('</sunSpecModels>', s + '</strings></sunSpecModels>'), t


UNIMPL = {'uint16': b'\xff\xff', 'int16': b'\x80\0', 'bitfield16': b'\xff\xff', 'enum16': b'\xff\xff', 'uint32': b'\xff' * 4, 'bitfield32': b'\xff' * 4,
          'string': b'\0' * 8, 'acc32': b'\0' * 4, 'int32': b'\x80\0\0\0', 'sunssf': b'\x80\0'}


def value(cx, e, name, impl, sym):
    """(registers, number)"""
    t = e['type']
    if not impl:
        return UNIMPL[t], None
    if t == 'string':
        s = cx.chars(name, 3) if sym else 'xyz'
        return s.encode('latin-1') + b'\0' * 5, s
    if t == 'pad':
        return b'\x80\0', None
    if t == 'sunssf':
        v = cx.choice(name, [0, -1, 2])
        return be16(v & 0xffff), v
    if t in ('uint16', 'enum16', 'bitfield16'):
        v = cx.int(name, 0, 65534) if sym else 7
        return be16(v), v
    if e.get('sf'):
        v = cx.choice(name, [-12, 0, 32767]) if sym else 25
        return be16(v & 0xffff), v
    if t == 'int16':
        v = cx.int(name, -32767, 32767) if sym else -12
        return be16(v & 0xffff), v
    if t == 'int32':
        v = cx.int(name, -2147483647, 2147483647) if sym else -70000
    else:
        v = cx.int(name, 1, 4294967294) if sym else 70000
    return be16((v >> 16) & 0xffff) + be16(v & 0xffff), v


def run(cx):
    models = cx.p['models']
    nrep = cx.p.get('rep', 0)
    link = cx.p['link']
    files = {}
    info = {}
    for mid in SHAPES:
        x, info[mid] = definition(SHAPES[mid])
        files[mid] = x
    use_defs(cx, files)
    mem = {40000: b'Su', 40001: b'nS'}
    a = 40002
    want = []
    sym = cx.p.get('sym', ())
    factor = {}
    gone = cx.choice('gone', cx.p.get('gone', [None]))
    for k, mid in enumerate(models):
        if mid not in SHAPES:
            mem.update(regmem(a, be16(mid) + be16(2) + b'\0\1\0\2'))
            a += 4
            want.append(('model', '(%d)' % mid))
            cx.reach('no definition')
            continue
        sh = SHAPES[mid]
        n = nrep if sh.rep else 0
        mem.update(regmem(a, be16(mid) + be16(sh.total(n))))
        label = info[mid][0]
        want.append(('model', '%s (%d)' % (label, mid) if label else '(%d)' % mid))
        vals = {}
        for bi, e, pa in sh.places(a + 2, n):
            key = '%d.%d.%s' % (k, bi, e['id'])
            d, v = value(cx, e, key, key != gone, e['id'] in sym)
            mem.update(regmem(pa, d))
            vals[bi, e['id']] = v
            if e['type'] in ('pad', 'sunssf'):
                continue
            if v is None:
                cx.reach('unimplemented')
                continue
            lab = info[mid][1].get(e['id'])
            idx = '%02d:' % bi if bi else '   '
            if bi:
                cx.reach('repeating')
            want.append(('point', '   %s%s (%s):' % (idx, lab, e['id']) if lab else '   %s(%s):' % (idx, e['id']), e, v, (k, bi)))
        factor[k] = vals.get((0, 'SF'))
        a += 2 + sh.total(n)
    mem[a] = b'\xff\xff'
    args, net = connect(cx, link, mem)
    text, code = cx.script('scripts/suns.py', args)
    cx.check(code == 0, 'the program succeeds')
    lines = [ln for ln in text.split('\n')]
    lines = [ln for ln in lines if len(ln) and not ln[:10] == 'Timestamp:']
    cx.check(len(lines) == len(want), 'one line per model and implemented point')
    for ln, w in zip(lines, want):
        if w[0] == 'model':
            cx.check(ln.startswith('model: ') and ln[7:] == w[1], 'models are listed in order with label and id')
            continue
        e, v = w[2], w[3]
        if e['type'] == 'bitfield16':
            t = '0x%04x' % v
            cx.reach('bitfield')
        elif e['type'] == 'bitfield32':
            t = '0x%08x' % v
        elif e.get('sf') and factor[w[4][0]] is not None:
            # whatever the notation of the number
            t = ln[len('%-40s ' % w[1]):].split()[0]
            cx.check(abs(float(t) - v * 10 ** factor[w[4][0]]) < 1e-6, 'scaled points are listed with their scaled value')
            cx.reach('scaled')
        else:
            t = str(v)
        u = e.get('units') or ''
        cx.check(cx.same(ln, '%-40s %20s %-10s' % (w[1], t, u)), 'points are listed in order with label, value and units')
    cx.reach('listed')
    cx.reach(link)


def connect(cx, link, mem):
    if link == 'mapped':
        lo, hi = min(mem), max(mem)
        regs = ''.join('<regs offset="%d" len="1" type="hexstr">%s</regs>' % (r - lo, bytes(mem[r]).hex()) for r in sorted(mem))
        root = cx.file_tree([('dev.xml', True, ('<mbmap addr="%d" func="holding">%s</mbmap>' % (lo, regs)).encode())], [], [])
        return ['-t', 'mapped', '-m', root + '/dev.xml', '-a', '1'], None
    slave = Slave(cx, mem)
    if link == 'tcp':
        net = Net(cx, slave.tcp(1)).install()
        return [], net
    bus = Bus(cx, slave.rtu(1)).install()
    return ['-t', 'rtu'], bus


def options(cx):
    """the options reach the connection"""
    use_defs(cx, {64132: definition(REP)[0]})
    mem = {40000: b'Su', 40001: b'nS', 40002: be16(64132), 40003: be16(1), 40004: b'\0\5', 40005: b'\xff\xff'}
    slave = Slave(cx, mem)
    t = cx.choice('t', [None, 'tcp', 'rtu'])
    unit = cx.choice('unit', [None, 2, 247])
    timeout = cx.choice('timeout', [None, '1.5', '10'])
    args = []
    if t:
        args += ['-t', t]
    if unit:
        args += ['-a', str(unit)]
    if timeout:
        args += ['-T', timeout]
    tm = float(timeout or 2)
    if t == 'rtu':
        port = cx.choice('port', [None, '/dev/ttyS7'])
        baud = cx.choice('baud', [None, '19200'])
        args += (['-p', port] if port else []) + (['-b', baud] if baud else [])
        bus = Bus(cx, slave.rtu(unit or 1)).install()
        text, code = cx.script('scripts/suns.py', args)
        p = bus.ports[0]
        cx.check(p.port == (port or '/dev/ttyUSB0') and int(p.baudrate) == int(baud or 9600), 'the serial port and baud rate given are used')
        cx.check(p.timeout == tm, 'the timeout given is used')
        cx.check(all(q[0] == (unit or 1) for q in bus.requests) and len(bus.requests) > 2, 'the slave address given is used')
    else:
        host = cx.choice('host', [None, '192.0.2.9'])
        port = cx.choice('port', [None, 1502])
        args += (['-i', host] if host else []) + (['-P', str(port)] if port else [])
        net = Net(cx, slave.tcp(unit or 1)).install()
        text, code = cx.script('scripts/suns.py', args)
        cx.check(all(c.addr == (host or 'localhost', port or 502) for c in net.conns) and net.conns, 'the host and port given are used')
        cx.check(all(c.timeout == tm for c in net.conns), 'the timeout given is used')
        cx.check(all(q[6] == (unit or 1) for q in net.requests) and len(net.requests) > 2, 'the slave address given is used')
    cx.check(code == 0 and 'Count (N):' in text, 'the device is listed')
    cx.reach('options')


def failing(cx):
    """errors end the program with a message and status 1"""
    use_defs(cx, {64132: definition(REP)[0]})
    how = cx.choice('how', ['type', 'silent', 'no map', 'exception', 'no file', 'no name'])
    code_ = cx.int('code', 0, 255)
    args = {'type': ['-t', 'usb'], 'silent': [], 'no map': [], 'exception': [], 'no file': ['-t', 'mapped', '-m', '/nonexistent/x.xml'], 'no name': ['-t', 'mapped']}[how]
    data = cx.bytes('data', 6)
    if how == 'no map':
        cx.assume(cx.not_(data[:4] == b'SunS'))

    def answer(req):
        if how == 'no map':
            return req[:4] + be16(9) + req[6:8] + be8(6) + data
        if how == 'exception':
            return req[:4] + be16(3) + req[6:7] + be8(req[7] | 0x80) + be8(code_)
        return None
    net = Net(cx, answer).install()
    text, code = cx.script('scripts/suns.py', args)
    cx.check(code == 1, 'the program fails with status 1')
    lines = [x for x in text.split('\n') if len(x)]
    cx.check(len(lines) == 1, 'one line is printed')
    cx.check(lines[0][:7] == 'Error: ' or how == 'type', 'an error is printed')
    cx.reach('error')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for link in ('tcp', 'rtu', 'mapped'):
        out.append(('run', {'link': link, 'models': [64131, 64132, 64131], 'rep': 2}))
    ids = ['A0', 'A1', 'A3', 'A4', 'A5', 'A6', 'A7']
    for i in ids:
        out.append(('run', {'link': 'tcp', 'models': [64131], 'sym': [i]}))
    for i in ['N'] + list('XYZWVTU'):
        out.append(('run', {'link': 'tcp', 'models': [64132], 'rep': 1, 'sym': [i]}))
    out.append(('run', {'link': 'tcp', 'models': [64132], 'rep': 130}))
    out.append(('run', {'link': 'tcp', 'models': [64131, 64131], 'gone': [None] + ['%d.0.%s' % (k, i) for k in (0, 1) for i in ids + ['SF']]}))
    for n in range(4 if th else 3):
        out.append(('run', {'link': 'tcp', 'models': [64132, 64199, 64132], 'rep': n,
                            'gone': [None] + ['%d.0.N' % k for k in (0, 2)] + ['%d.%d.%s' % (k, b, i) for k in (0, 2) for b in range(1, n + 1) for i in 'XYZWVTU']}))
    out.append(('options', {}))
    out.append(('failing', {}))
    for link in ('tcp', 'rtu', 'mapped'):
        out.append(('run', {'link': link, 'models': [64132, 64131] , 'rep': 12}))
    out.append(('run', {'link': 'tcp', 'models': [64131, 64199, 64132] * 4, 'rep': 1}))
    out.append(('run', {'link': 'tcp', 'models': [64132], 'rep': 12, 'gone': ['0.1.X', '0.2.Y', '0.10.X', '0.11.Z', '0.12.Y'], 'sym': []}))
    return out
