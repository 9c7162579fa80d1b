"""C10 a mapped device behaves as a register array"""
from props.lib import *

MBMAP = 'sunspec.core.modbus.mbmap'
META = {
    'bounds': {'quick': 'maps of up to 3 blocks (adjacent, with gaps, single registers) and up to 7 registers, any base address up to 60000, built block by block, with '
                        'regs_add, from an mbmap document or behind a mapped client device; two or three operations at any address (from 3 below to 3 past '
                        'the map) with any count up to one past the map, then a read; maps of four blocks and 330 registers and of 40 blocks with operations across '
                        'block boundaries; every register value; every function code',
               'thorough': 'as quick with four operations and maps of 4 blocks'},
    'outside': 'longer histories; reads of no or a negative number of registers',
    'reach': ['read ok', 'read error', 'write ok', 'write error', 'func', 'odd'],
}


def some(k, n, base):
    return bytes([base + (k * 31 + 7 * i + i // 97) % 101 for i in range(n)])


def build(cx, layout, how):
    """(object with read/write, error class, base, initial register bytes by offset, func)"""
    mbmap = cx.mod(MBMAP)
    modbus = cx.mod(MODBUS)
    func = cx.p['func'] if 'func' in cx.p else cx.choice('func', [3, 4])
    base = 40000 if how == 'default' else cx.p['base'] if 'base' in cx.p else cx.int('base', 0, 60000)
    init = {}
    blocks = []
    for off, cnt in layout:
        d = some(off, 2 * cnt, 1) if 'spots' in cx.p else cx.bytes('init%d' % off, 2 * cnt)
        blocks.append((off, cnt, d))
        for i in range(cnt):
            init[off + i] = d[2 * i:2 * i + 2]
    fname_ = {3: 'holding', 4: 'input'}[func]
    if how in ('manual', 'default', 'regs_add'):
        kw = {} if how == 'default' else {'base_addr': base}
        m = mbmap.ModbusMap(1, fname_, **kw)
        for off, cnt, d in blocks:
            if how == 'regs_add':
                if off % 2:
                    m.regs_add(addr=base + off, count=cnt)
                else:
                    m.regs_add(offset=off, count=cnt)
                m.write(base + off, d)
            else:
                m.regs.append(mbmap.ModbusMapRegs(off, cnt, d, 'rw'))
        return m, mbmap.ModbusMapError, base, init, func
    x = '<mbmap addr="' + str(base) + '" func="' + fname_ + '">'
    for off, cnt, d in blocks:
        x += '<regs offset="' + str(off) + '" len="' + str(cnt) + '" type="hexstr" access="rw">' + ''.join(['%02x' % b for b in d]) + '</regs>'
    x += '</mbmap>'
    if how == 'xml':
        m = mbmap.ModbusMap(1)
        m.from_xml('m.xml', Defs({'m.xml': x}))
        return m, mbmap.ModbusMapError, base, init, func
    d = modbus.ModbusClientDeviceMapped(1, 'm.xml', Defs({'m.xml': x}))
    return d, modbus.ModbusClientError, base, init, func


def history(cx):
    layout = cx.p['layout']
    m, Err, base, ref, func = build(cx, layout, cx.p['how'])
    total = max([o + c for o, c in layout] + [0])

    def read(off, cnt, op):
        r, e = cx.raises(lambda: m.read(base + off, cnt) if op is None else m.read(base + off, cnt, op), Err)
        off = cx.fork(off)
        cnt = cx.fork(cnt)
        span = list(range(off, off + cnt))
        if op is not None and op != func:
            cx.check(e is not None, 'a read with another function code raises an error')
            cx.reach('func')
            return
        if all(i in ref for i in span):
            cx.check(e is None, 'a read of defined registers succeeds')
            if e is None:
                cx.observe('read', r)
                cx.check(cx.same(r, b''.join([ref[i] for i in span])), 'a read returns the last values written')
                cx.reach('read ok')
        else:
            cx.check(e is not None, 'a read touching an undefined register raises an error')
            cx.reach('read error')

    for k, op in enumerate(cx.p['ops']):
        if 'spots' in cx.p:
            off = cx.choice('off%d' % k, cx.p['spots'])
        else:
            off = cx.int('off%d' % k, -cx.p.get('below', 1), total + cx.p.get('above', 1))
        cx.assume(base + off >= 0)
        if k + 1 < len(cx.p['ops']):
            off = cx.fork(off)
        if op == 'r':
            read(off, cx.choice('cnt%d' % k, cx.p['counts']) if 'counts' in cx.p else cx.int('cnt%d' % k, 1, total + 1), cx.choice('op%d' % k, cx.p.get('rop', [None, 3, 4])))
        elif op == 'o':
            n = cx.choice('odd%d' % k, [1, 3])
            r, e = cx.raises(lambda: m.write(base + off, cx.bytes('odd', n)), Err)
            cx.check(e is not None, 'a write of an odd number of bytes raises an error')
            cx.reach('odd')
        else:
            cnt = cx.choice('cnt%d' % k, cx.p['counts'] if 'counts' in cx.p else list(range(1, min(total + 2, cx.p.get('wmax', 4)))))
            d = cx.bytes('data%d' % k, 4) + some(k, 2 * cnt, 128)[4:] if 'spots' in cx.p and cnt > 1 else cx.bytes('data%d' % k, 2 * cnt)
            r, e = cx.raises(lambda: m.write(base + off, d), Err)
            off = cx.fork(off)
            span = list(range(off, off + cnt))
            if all(i in ref for i in span):
                cx.check(e is None, 'a write of defined registers succeeds')
                for i in range(cnt):
                    ref[off + i] = d[2 * i:2 * i + 2]
                cx.reach('write ok')
            else:
                cx.check(e is not None, 'a write touching an undefined register raises an error')
                cx.reach('write error')
    # final content, block by block
    for o, c in layout:
        d = m.read(base + o, c)
        cx.check(cx.same(d, b''.join([ref[o + i] for i in range(c)])), 'registers hold the last values successfully written')


def twins(cx):
    """devices made from the same document each have their own registers"""
    modbus = cx.mod(MODBUS)
    n = 3
    d = cx.bytes('init', 2 * n)
    x = '<mbmap addr="100"><regs offset="0" len="3" type="hexstr" access="rw">' + ''.join(['%02x' % b for b in d]) + '</regs></mbmap>'
    docs = Defs({'m.xml': x})
    units = cx.p['units']
    if cx.p['how'] == 'device':
        devs = [modbus.ModbusClientDeviceMapped(u, 'm.xml', docs) for u in units]
    elif cx.p['how'] == 'client':
        client = cx.mod('sunspec.core.client')
        devs = [client.ClientDevice(client.MAPPED, u, name='m.xml', pathlist=docs) for u in units]
    else:
        mbmap = cx.mod(MBMAP)
        devs = [mbmap.ModbusMap(u) for u in units]
        for m in devs:
            m.from_xml('m.xml', docs)
    refs = [list(d) for u in units]
    for k in range(cx.p['writes']):
        i = cx.choice('dev%d' % k, [0, 1])
        off = cx.fork(cx.int('off%d' % k, 0, n - 1))
        v = cx.bytes('v%d' % k, 2)
        devs[i].write(100 + off, v)
        refs[i][2 * off:2 * off + 2] = list(v)
        for m, ref in zip(devs, refs):
            cx.check(cx.same(m.read(100, n), bytes(ref)), 'each device has its own registers')
    cx.reach('write ok')


def function_code(cx):
    m, Err, base, ref, func = build(cx, [(0, 2)], cx.p['how'])
    op = cx.int('op', 1, 255)
    r, e = cx.raises(lambda: m.read(base, 2, op), Err)
    cx.check(cx.iff(op == func, e is None), 'reads succeed exactly with the function code of the map')
    cx.reach('func')


LAYOUTS = [[(0, 3)], [(2, 2), (4, 2)], [(0, 2), (3, 2)], [(1, 1), (3, 3), (6, 1)], [(0, 1), (1, 1), (2, 1)]]


def cases(tier):
    t = tier == 'thorough'
    out = [('function_code', {'how': h}) for h in ('manual', 'xml', 'device', 'regs_add')]
    for how in ('device', 'client', 'map'):
        for units in ((1, 1), (1, 2)):
            out.append(('twins', {'how': how, 'units': units, 'writes': 3 if t else 2}))
    out.append(('history', {'layout': [], 'how': 'manual', 'ops': 'r', 'base': 100}))
    out.append(('history', {'layout': [], 'how': 'xml', 'ops': 'w', 'base': 100}))
    for li, l in enumerate(LAYOUTS):
        for how in ('manual', 'xml', 'default', 'regs_add', 'device'):
            base = [0, 1, 40000, 60000][(li + len(how)) % 4]
            for ops in ('r', 'w'):
                out.append(('history', {'layout': l, 'how': how, 'ops': ops, 'wmax': 9, 'above': 3, 'below': 3, 'base': base}))
            if t or li < 4:
                for ops in ('wr', 'ow', 'rr', 'ww'):
                    if t or (how == 'manual' and ops != 'rr') or (ops == 'wr' and (how, li) in (('xml', 1), ('xml', 3), ('device', 2), ('device', 0))):
                        out.append(('history', {'layout': l, 'how': how, 'ops': ops, 'wmax': 6 if t else 4, 'base': base,
                                                    'func': 3 + li % 2, 'rop': [None]}))
    for l in LAYOUTS[:3] if not t else LAYOUTS:
        for how in ('manual', 'device'):
            for ops in ('r', 'w'):
                out.append(('history', {'layout': l, 'how': how, 'ops': ops, 'wmax': 3 if not t else 9, 'func': 3, 'rop': [None, 3]}))
    if t:
        for l in LAYOUTS + [[(0, 2), (2, 1), (4, 1), (6, 2)]]:
            for how in ('manual', 'xml', 'device'):
                out.append(('history', {'layout': l, 'how': how, 'ops': 'www', 'wmax': 4, 'base': 40000, 'func': 3, 'rop': [3]}))
                out.append(('history', {'layout': l, 'how': how, 'ops': 'wrw', 'wmax': 4, 'base': 40000, 'func': 3, 'rop': [3]}))
    big = [(0, 130), (130, 70), (200, 1), (205, 130)]
    for how in ('manual', 'xml', 'device'):
        for ops in ('r', 'w') + (('wr',) if how == 'device' else ()):
            out.append(('history', {'layout': big, 'how': how, 'ops': ops, 'base': 40000, 'func': 3, 'rop': [None], 'spots': [0, 5, 129, 130, 199, 204, 205, 334] if ops != 'wr' else [129, 199],
                                    'counts': [1, 2, 71, 72, 125, 126, 130, 201, 202] if ops != 'wr' else [1, 71, 72]}))
    many = [(3 * i, 2) for i in range(40)]
    for how in ('manual', 'xml', 'device'):
        for ops in ('r', 'w'):
            out.append(('history', {'layout': many, 'how': how, 'ops': ops, 'base': 40000, 'func': 3, 'rop': [None], 'spots': [0, 1, 2, 45, 46, 51, 52, 97, 117, 118, 119],
                                    'counts': [1, 2, 3]}))
    return out
