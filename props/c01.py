"""C01 every point type decodes and encodes its registers exactly"""
from props.lib import *

META = {
    'bounds': {'quick': 'every point type; every register content on reading; on writing every value of the integer types and 2^16 values beyond either end '
                        '(64-bit types: 4), as numbers and as decimal or hexadecimal text; every float32 value; every IPv6 and EUI-48 address; strings of 0..6 Latin-1 characters in 1..3 '
                        'registers and of 15, 16, 31, 32, 49, 50, 65, 66, 159, 160, 239, 240 characters in 8 to 120 (reading: 8 to 80); points in fixed and repeating blocks',
               'thorough': 'as quick with strings of up to 16 characters in up to 8 registers'},
    'outside': 'strings longer than the point; strings with a leading or trailing NUL; float values that are not float32 values',
    'reach': ['decoded', 'written', 'rejected', 'string', 'text'],
}


def model(cx, t, where, plen=None, n=2):
    """A model with the point under test between two neighbours; returns (device, model, point addr, memory, len)"""
    plen = plen or TYPE_LEN[t]
    pts = [point('X', 'uint16', 0), point('P', t, 1, plen if t == 'string' else None), point('Y', 'uint16', 1 + plen)]
    b = plen + 2
    if where == 'fixed':
        blocks = [block(pts, b)]
        total, off = b, 1
    else:
        blocks = [block([point('F', 'uint16', 0)], 1), block(pts, b, 'repeating')]
        total, off = 1 + n * b, 1 + b + 1
    use_defs(cx, {64100: model_xml(64100, total, blocks)})
    mem = regmem(100, b'\x11\x22' * total)
    mem.update(regmem(100 + off, cx.bytes('reg', 2 * plen)))
    mem[100 + off - 1] = cx.bytes('before', 2)
    mem[100 + off + plen] = cx.bytes('after', 2)
    d = client_device(cx, mem)
    m = load_model(cx, 64100, 100, total, d)
    blk = m.blocks[0] if where == 'fixed' else m.blocks[2]
    return d, m, blk, 100 + off, mem, plen


def the_point(blk, t):
    return (blk.points_sf if t == 'sunssf' else blk.points)['P']


def raw_of(mem, addr, n):
    return b''.join([mem[addr + i] for i in range(n)])


def read(cx):
    t = cx.p['type']
    d, m, blk, addr, mem, n = model(cx, t, cx.p['where'], cx.p.get('len'))
    raw = raw_of(mem, addr, n)
    m.read_points()
    p = the_point(blk, t)
    cx.check(int(p.addr) == addr, 'point address')
    if t == 'string':
        # up to the trailing NULs
        v = p.value
        if bool(raw[0] == 0):
            return
        k = 2 * n
        while k > 1 and bool(raw[k - 1] == 0):
            k -= 1
        cx.check(v is not None and cx.same(v, raw[:k].decode('latin-1')), 'a string point has the text of its registers')
        cx.observe('v', v)
        cx.reach('string')
        return
    if t == 'float32':
        v = decode(t, raw)
        if bool(v != v):
            return
    elif bool(raw == SENTINEL[t]) or t == 'eui48' and bool(cx.any([raw == b'\0' * 8, raw[2:] == b'\xff' * 6])):
        return
    want = decode(t, raw)
    cx.check(p.value_base is not None and cx.same(p.value_base, want), 'the raw value is the encoded value of its registers')
    cx.check(p.value is not None and cx.same(p.value, want), 'the value is the encoded value of its registers')
    cx.observe('v', p.value)
    cx.reach('decoded')


def store(cx, d, m, p, v, how):
    if how == 'point':
        p.value_base = v
        p.write()
    else:
        p.value = v
        if how == 'value':
            p.write()
        else:
            m.write_points()


def check_written(cx, d, addr, n, want):
    w = [(a, x) for k, a, x in d.modbus_device.log if k == 'w']
    cx.check(len(w) == 1 and w[0][0] == addr, 'one write at the point')
    cx.check(cx.same(w[0][1], want) and len(w[0][1]) == 2 * n, 'exactly the declared registers in the encoding of the type are written')


def read_back(cx, t, m, blk, v):
    m.read_points()
    p = the_point(blk, t)
    cx.check(p.value is not None and cx.same(p.value, v), 'the value read back is the value written')


def write_int(cx):
    t = cx.p['type']
    lo, hi = int_range(t)
    d, m, blk, addr, mem, n = model(cx, t, cx.p['where'])
    slack = 4 if n == 4 else 1 << 16
    v = cx.int('v', 0 if cx.p['how'] == 'hex' else lo - slack, hi + slack)
    p = the_point(blk, t)
    how = cx.p['how']
    text = how
    arg = v
    if how == 'dec':
        arg, how = str(v), 'value'
    elif how == 'hex':
        arg, how = '0x%x' % v, 'value'
    r, e = cx.raises(lambda: store(cx, d, m, p, arg, how), Exception)
    if not cx.native and isinstance(e, NotImplementedError):
        raise e
    ok = cx.all([v >= lo, v <= hi])
    cx.check(cx.iff(ok, e is None), 'an integer is accepted exactly when it is in range')
    if e is not None:
        cx.check(not [x for x in d.modbus_device.log if x[0] == 'w'], 'nothing is written for an integer out of range')
        cx.reach('rejected')
        return
    check_written(cx, d, addr, n, encode(t, v))
    if text != how:
        cx.reach('text')
    if not bool(encode(t, v) == SENTINEL[t]):
        read_back(cx, t, m, blk, v)
    cx.reach('written')


def write_other(cx):
    t = cx.p['type']
    d, m, blk, addr, mem, n = model(cx, t, cx.p['where'], cx.p.get('len'))
    p = the_point(blk, t)
    how = cx.p['how']
    if t == 'float32':
        raw = cx.bytes('v', 4)
        v = decode(t, raw)
        cx.assume(v == v)
    elif t == 'ipv6addr':
        raw = cx.bytes('v', 16)
        cx.assume(raw != b'\0' * 16)
        v = decode(t, raw)
    elif t == 'eui48':
        mac = cx.bytes('v', 6)
        cx.assume(cx.all([mac != b'\0' * 6, mac != b'\xff' * 6]))
        raw = b'\0\0' + mac
        v = decode(t, raw)
    else:
        k = cx.p['chars']
        v = cx.chars('v', k, 1, 255)
        raw = v.encode('latin-1') + b'\0' * (2 * n - k)
    store(cx, d, m, p, v, how)
    check_written(cx, d, addr, n, raw)
    if t != 'string' or cx.p['chars']:
        read_back(cx, t, m, blk, v)
    cx.reach('written')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for ty in TYPE_LEN:
        if ty != 'pad':
            for w in ('fixed', 'repeating'):
                out.append(('read', {'type': ty, 'where': w}))
    for n in range(1, 9 if t else 4):
        out.append(('read', {'type': 'string', 'where': 'fixed' if n % 2 else 'repeating', 'len': n}))
    for ty in INT_TYPES:
        for how in ('point', 'value', 'model', 'dec', 'hex'):
            if ty == 'sunssf' and how == 'model':
                continue
            out.append(('write_int', {'type': ty, 'where': 'fixed' if how != 'model' else 'repeating', 'how': how}))
            if t:
                out.append(('write_int', {'type': ty, 'where': 'repeating', 'how': how}))
    for ty in ('float32', 'ipv6addr', 'eui48'):
        for how in ('point', 'value', 'model'):
            for w in ('fixed', 'repeating'):
                out.append(('write_other', {'type': ty, 'where': w, 'how': how}))
    for n in range(1, 9 if t else 4):
        for k in range(0, 2 * n + 1):
            out.append(('write_other', {'type': 'string', 'where': 'fixed', 'how': ['point', 'value', 'model'][k % 3], 'len': n, 'chars': k}))
    for n in (8, 16, 25):
        for w in ('fixed', 'repeating'):
            out.append(('read', {'type': 'string', 'where': w, 'len': n}))
        for k in (2 * n - 1, 2 * n):
            for how in ('point', 'model'):
                out.append(('write_other', {'type': 'string', 'where': 'repeating', 'how': how, 'len': n, 'chars': k}))
    for n in (33, 80, 120):
        if n < 120 or t:
            out.append(('read', {'type': 'string', 'where': 'fixed', 'len': n}))
        for k, how in ((2 * n, 'point'), (2 * n, 'model'), (2 * n - 1, 'value')):
            out.append(('write_other', {'type': 'string', 'where': 'fixed', 'how': how, 'len': n, 'chars': k}))
    return out
