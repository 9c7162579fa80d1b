"""C18 saving a device to PICS and loading it back preserves every point"""
from fractions import Fraction
import xml.etree.ElementTree as ET

from props.lib import *
from props.c16 import MIX2

META = {
    'bounds': {'quick': 'devices of 1..3 and 12 models (every point type, 0..3, 12 and 130 (some of them symbolic) repeating blocks, a model without a definition); all raw values of the integer types, '
                        'strings of arbitrary printable characters, sampled floats; any subset of 4 points unimplemented; scale factors -3, 0, 2 and unimplemented; '
                        'loading from an element, a file name and a path list; hand-written documents with and without block indexes (any index, -3..n+4) and attributes',
               'thorough': 'as quick with any subset of 7 points unimplemented and longer strings'},
    'outside': 'strings with control characters; repeating blocks that precede the fixed block in the document',
    'reach': ['round trip', 'pattern', 'unimplemented', 'scaled', 'indexed block', 'all blocks', 'first block only', 'unknown model', 'file', 'index rejected', 'errors', 'document', 'access'],
}
FLOATS = [b'\x3f\xc0\0\0', b'\xbd\xcc\xcc\xcd', b'\x7f\x7f\xff\xff', b'\0\0\0\1', b'\x80\0\0\0', b'\xff\x80\0\0']


def chars(cx, name, n):
    """n arbitrary printable characters, as bytes"""
    return cx.chars(name, n, 32, 126, exclude='<>&').encode('latin-1')


def content(cx, e, nm):
    t = e['type']
    if t == 'string':
        k = e.get('chars', 4)
        return chars(cx, nm, k) + b'z' * (2 * e['len'] - k - 1) + b'\0'
    if t == 'float32':
        return cx.choice(nm, FLOATS)
    return implemented(cx, t, nm)


def fill(cx, sh, n, base, tag, unimpl, sfs, few=None):
    mem = {}
    for bi, e, a in sh.places(base, n):
        nm = '%s%s_%d' % (tag, e['id'], bi)
        t = e['type']
        if t == 'sunssf':
            v = sfs[e['id'] + str(bi)]
            d = SENTINEL[t] if v is None else be16(v)
        elif few is not None and bi not in few:
            d = (200 * bi + 1).to_bytes(2 * e['len'], 'big')
        elif unimpl > 0 and t != 'pad':
            unimpl -= 1
            if cx.choice('un_' + nm, [0, 1]):
                d = b'\0' * (2 * e['len']) if t == 'string' else b'\x7f\xc0\0\0' if t == 'float32' else SENTINEL[t]
                cx.reach('unimplemented')
            else:
                d = content(cx, e, nm)
        else:
            d = content(cx, e, nm)
        mem.update(regmem(a, d))
    return mem


def same_point(cx, p, q):
    if p.value_base is None:
        cx.check(q.value_base is None, 'an unimplemented point stays unimplemented')
        cx.check(q.value is None, 'an unimplemented point stays unimplemented')
        return
    cx.check(q.value_base is not None and cx.same(q.value_base, p.value_base), 'the raw value is preserved')
    cx.check(cx.same(q.value_sf, p.value_sf), 'the scale factor is preserved')
    if p.value_sf:
        cx.reach('scaled')
        cx.check(cx.within(q.value, p.value_base, Fraction(10) ** int(p.value_sf), 0), 'the scaled value is preserved')
    else:
        cx.check(cx.same(q.value, p.value), 'the scaled value is preserved')


def document(cx, d, single):
    pics = cx.mod('sunspec.core.pics')
    root = ET.Element(pics.PICS_ROOT)
    d.to_pics(root, single_repeating=single)
    return ET.tostring(root).decode('latin-1')


def contents(cx, text, d, shapes, single):
    """the document lists models, blocks and points in definition order with access and implementation"""
    dev = ET.fromstring(text).find('device')
    ms = [e for e in dev]
    cx.check(len(ms) == len(shapes) and all(e.tag == 'model' for e in ms), 'the document lists every model once')
    for e, m, sn in zip(ms, d.models_list, shapes):
        cx.check(e.attrib.get('id') == str(m.id) and e.attrib.get('len') == str(m.len) and e.attrib.get('index', '1') == str(m.index), 'the document gives id, length and index of each model')
        if sn is None:
            cx.check(len([x for x in e]) == 0, 'a model without a definition has no points')
            continue
        sh, n = sn
        bs = [x for x in e]
        cx.check(len(bs) == 1 + (min(n, 1) if single else n), 'the document lists every block once')
        for bi, b in enumerate(bs):
            cx.check(b.tag == 'block' and b.attrib.get('type', 'fixed') == ('repeating' if bi else 'fixed'), 'the type of each block')
            if bi > 1:
                cx.check(b.attrib.get('index') == str(bi), 'the index of each block')
            es = [x for x in (sh.rep if bi else sh.fixed) if x['type'] != 'pad']
            pads = [x['id'] for x in (sh.rep if bi else sh.fixed) if x['type'] == 'pad']
            ps = [x for x in b if x.attrib.get('id') not in pads]
            cx.check([x.attrib.get('id') for x in ps] == [x['id'] for x in es], 'the document lists every point once, in definition order')
            for x, en in zip(ps, es):
                p = the_point(m, bi, en)
                un = p.value_base is None
                cx.check((x.attrib.get('impl', 'true') == 'false') == un, 'exactly the unimplemented points are marked so')
                if not un:
                    cx.check(x.attrib.get('access', 'r') == en.get('access', 'r'), 'the access of each implemented point')
                    cx.check(cx.same(x.text, str(p.value_base).rstrip('\0')), 'the raw value of each implemented point')
                    cx.reach('access')
    cx.reach('document')


def reload(cx, text, how):
    device = cx.mod('sunspec.core.device')
    q = device.Device()
    if how == 'element':
        q.from_pics(element=ET.fromstring(text).find('device'))
    elif how == 'pathlist':
        q.from_pics(filename='dev.xml', pathlist=Defs({'dev.xml': text}))
        cx.reach('file')
    else:
        device.file_pathlist.files['dev.xml'] = text
        q.from_pics(filename='dev.xml', pathlist=Defs({}) if how == 'both' else None)
        cx.reach('file')
    return q


def roundtrip(cx):
    client = cx.mod('sunspec.core.client')
    base = cx.p.get('base', 40000)
    d = client_device(cx, {})
    d.base_addr = base
    defs = {}
    addr = base + 2
    shapes = []
    for i, mm in enumerate(cx.p['models']):
        if mm is None:
            m = client.ClientModel(d, 64999, addr + 2, 7)
            r, e = cx.raises(m.load, Exception)
            d.add_model(m)
            addr += 9
            shapes.append(None)
            cx.reach('unknown model')
            continue
        sh = Shape(mm['fixed'], mm.get('rep'), mid=mm.get('id', 64100 + i))
        n = mm.get('n', 0)
        defs[sh.mid] = sh.xml()
        use_defs(cx, defs)
        sfs = dict((e['id'] + str(bi), cx.choice('sf%d%s_%d' % (i, e['id'], bi), cx.p.get('sfs', [-3, None, 2])))
                   for bi, e, a in sh.places(0, n) if e['type'] == 'sunssf')
        d.modbus_device.mem.update(fill(cx, sh, n, addr + 2, 'm%d' % i, cx.p.get('unimpl', 0), sfs, cx.p.get('few')))
        load_model(cx, sh.mid, addr + 2, sh.total(n), d)
        shapes.append((sh, n))
        addr += 2 + sh.total(n)
    d.read_points()
    single = cx.p.get('single', False)
    text = document(cx, d, single)
    contents(cx, text, d, shapes, single)
    q = reload(cx, text, cx.p.get('how', 'element'))
    if not single or all(s is None or s[1] < 2 for s in shapes):
        cx.check(cx.same(document(cx, q, single), text), 'saving the loaded device gives the same document')
    cx.check(q.base_addr == base, 'the same base address')
    cx.check([m.addr for m in q.models_list] == [m.addr for m in d.models_list], 'the same model addresses')
    cx.check([m.id for m in q.models_list] == [m.id for m in d.models_list], 'the same models')
    cx.check([m.len for m in q.models_list] == [m.len for m in d.models_list], 'the same model lengths')
    cx.check(sorted(q.models) == sorted(d.models) and all(len(q.models[k]) == len(d.models[k]) for k in d.models), 'the same models by id')
    for mi, (a, b) in enumerate(zip(d.models_list, q.models_list)):
        cx.check(len(a.blocks) == len(b.blocks), 'the same blocks')
        if shapes[mi] is None:
            continue
        sh, n = shapes[mi]
        for bi, e, x in sh.places(0, n):
            if e['type'] == 'pad':
                continue
            p = the_point(a, min(bi, 1) if single else bi, e)
            same_point(cx, p, the_point(b, bi, e))
    cx.reach('first block only' if single else 'round trip')


def indexed(cx):
    """hand-written documents: blocks with and without index"""
    n = cx.p['n']
    sh = Shape([{'id': 'X', 'type': 'uint16'}, {'id': 'S', 'type': 'sunssf'}],
               [{'id': 'A', 'type': 'int16', 'sf': 'S'}, {'id': 'B', 'type': 'uint32'}, {'id': 'T', 'type': 'sunssf'}])
    use_defs(cx, {sh.mid: sh.xml()})
    plan = [cx.choice('i%d' % k, [None] + list(range(1, n + 1))) for k in range(cx.p['blocks'])]
    exp = dict((bi, {'A': None, 'B': None}) for bi in range(1, n + 1))
    s = cx.choice('s', [0, -1])
    doc = '<sunSpecPics v="1"><device><model id="64100"' + (' len="%d"' % sh.total(n)) + '>'
    doc += '<block' + cx.choice('ftype', ['', ' type="fixed"']) + '><point id="X">7</point><point id="S">' + str(s) + '</point></block>'
    for k, i in enumerate(plan):
        which = cx.choice('which%d' % k, ['A', 'B', 'AB'])
        doc += '<block type="repeating"' + ('' if i is None else ' index="%d"' % i) + '>'
        for pid in which:
            if cx.p.get('noimpl') and pid == 'A' and cx.choice('impl%d' % k, [1, 0]) == 0:
                doc += '<point id="A" impl="false" />'
                v = None
            else:
                v = cx.int('v%s%d' % (pid, k), 0, 30000)
                doc = doc + '<point id="' + pid + '">' + str(v) + '</point>'
            for bi in (range(1, n + 1) if i is None else [i]):
                exp[bi][pid] = v
        doc += '</block>'
        cx.reach('all blocks' if i is None else 'indexed block')
    doc += '</model></device></sunSpecPics>'
    q = reload(cx, doc, 'pathlist')
    m = q.models_list[0]
    cx.check(len(m.blocks) == n + 1, 'blocks follow the model length')
    cx.check(m.blocks[0].points['X'].value_base == 7, 'fixed block point')
    for bi in exp:
        for pid, v in exp[bi].items():
            p = m.blocks[bi].points[pid]
            if v is None:
                cx.check(p.value_base is None, 'a point that is not given or not implemented has no value')
            else:
                cx.check(p.value_base is not None and cx.same(p.value_base, v), 'a block applies to the indexed block only, or to all without an index')
                if pid == 'A':
                    cx.check(p.value_sf == s, 'the scale factor is resolved')


def pattern(cx):
    """a value that is the 'not implemented' pattern, in one or several blocks for the same point"""
    t = cx.p['type']
    sh = Shape(['uint16'], [{'id': 'A', 'type': t}, 'uint16'])
    use_defs(cx, {sh.mid: sh.xml()})
    lo, hi = int_range(t)
    none = int.from_bytes(SENTINEL[t], 'big', signed=INT_TYPES[t][1])
    doc = '<sunSpecPics v="1"><device><model id="64100" len="%d"><block><point id="F0">1</point></block>' % sh.total(2)
    exp = {1: None, 2: None}
    given = set()
    for k, i in enumerate(cx.p['index']):
        how = cx.choice('how%d' % k, ['value', 'none', 'impl'])
        v = None if how == 'impl' else none if how == 'none' else cx.int('v%d' % k, lo, hi)
        doc = doc + '<block type="repeating"' + ('' if i is None else ' index="%d"' % i) + '>'
        doc = doc + ('<point id="A" impl="false" />' if v is None else '<point id="A">' + str(v) + '</point>') + '</block>'
        if v is not None and bool(v == none):
            v = None
            cx.reach('pattern')
        for bi in (1, 2) if i is None else (i,):
            exp[bi] = v
            given.add(bi)
    q = reload(cx, doc + '</model></device></sunSpecPics>', 'element')
    for bi in exp:
        p = q.models_list[0].blocks[bi].points['A']
        if exp[bi] is None:
            cx.check(p.value_base is None and p.value is None, 'the pattern for not implemented is no value')
        else:
            cx.check(p.value_base is not None and cx.same(p.value_base, exp[bi]), 'a point has the value given last')
        cx.check(bi not in given or bool(p.impl) == (exp[bi] is not None), 'a point without value is not implemented')


def attrs(cx):
    """device address, default model length, unknown points, hexadecimal values"""
    device = cx.mod('sunspec.core.device')
    sh = Shape([{'id': 'X', 'type': 'uint16'}, {'id': 'Y', 'type': 'bitfield32'}], [{'id': 'A', 'type': 'int16'}])
    use_defs(cx, {sh.mid: sh.xml()})
    base = cx.int('base', 0, 60000)
    has = cx.choice('has', [0, 1])
    ln = cx.choice('len', [None, 3, 4, 6])
    v, w = cx.int('v', 0, 65534), cx.int('w', 0, 0xfffffffe)
    doc = '<sunSpecPics><device' + (' addr="' + str(base) + '"' if has else '') + '><model id="64100"' + ('' if ln is None else ' len="%d"' % ln) + '>'
    doc = doc + '<block><point id="X">' + (str(v) if cx.choice('hex', [0, 1]) == 0 else '0x%x' % v) + '</point><point id="Q">5</point><point id="Y">' + str(w) + \
        '</point></block></model><model id="64100" len="3"></model></device></sunSpecPics>'
    q = reload(cx, doc, cx.p['how'])
    m = q.models_list[0]
    a = (base if has else 40000) + 4
    cx.check(cx.all([q.base_addr == a - 4, m.addr == a]), 'device and model address')
    total = sh.total(1) if ln is None else ln
    cx.check(m.len == total and len(m.blocks) == 1 + total - 3, 'model length, by default that of the definition')
    cx.check(cx.same(m.blocks[0].points['X'].value_base, v), 'point value')
    cx.check(cx.same(m.blocks[0].points['Y'].value_base, w), 'point value')
    m2 = q.models_list[1]
    cx.check(m2.addr == m.addr + total + 2, 'the next model follows')
    cx.check(q.models[64100] == [m, m2], 'both models are listed under the id')
    cx.check(m2.blocks[0].points['X'].value_base is None, 'a point that is not given has no value')


BAD = ['<sunSpecPics></sunSpecPics>', '<other><device /></other>', '<sunSpecPics><device><x /></device></sunSpecPics>',
       '<sunSpecPics><device><model len="3" /></device></sunSpecPics>',
       '<sunSpecPics><device><model id="64100" len="3"><x /></model></device></sunSpecPics>',
       '<sunSpecPics><device><model id="64100" len="3"><block type="odd" /></model></device></sunSpecPics>',
       '<sunSpecPics><device><model id="64100" len="3"><block><x /></block></model></device></sunSpecPics>',
       '<sunSpecPics><device><model id="64100" len="4"><block type="repeating" index="9"><point id="A">1</point></block></model></device></sunSpecPics>',
       'no xml']


def errors(cx):
    device = cx.mod('sunspec.core.device')
    sh = Shape([{'id': 'X', 'type': 'uint16'}, {'id': 'Y', 'type': 'bitfield32'}], [{'id': 'A', 'type': 'int16'}])
    use_defs(cx, {sh.mid: sh.xml()})
    r, e = cx.raises(lambda: reload(cx, cx.choice('bad', BAD), 'pathlist'), device.SunSpecError)
    cx.check(e is not None, 'a malformed document is rejected')
    cx.reach('errors')


def out_of_range(cx):
    """the index of a block names one of the repeating blocks"""
    device = cx.mod('sunspec.core.device')
    n = cx.p['n']
    sh = Shape([{'id': 'X', 'type': 'uint16'}], [{'id': 'A', 'type': 'int16'}, {'id': 'X', 'type': 'uint16'}])
    use_defs(cx, {sh.mid: sh.xml()})
    i = cx.int('index', -3, n + 4)
    v = cx.int('v', 0, 30000)
    x = '<model id="64100" len="' + str(sh.total(n)) + '"><block><point id="X">9</point></block><block type="repeating" index="' + str(i) + '"><point id="X">' + str(v) + \
        '</point></block></model>'
    if cx.choice('how', ['model', 'device']) == 'model':
        m = device.Model(None, 64100, 40002, sh.total(n))
        m.load()
        r, e = cx.raises(lambda: m.from_pics(ET.fromstring(x)), device.SunSpecError)
    else:
        q = device.Device()
        r, e = cx.raises(lambda: q.from_pics(element=ET.fromstring('<device>' + x + '</device>')), device.SunSpecError)
        m = q.models_list[0] if e is None else None
    cx.check(cx.iff(cx.all([i >= 1, i <= n]), e is None), 'a block index that names no repeating block is rejected, any other is accepted')
    if e is None:
        for k, b in enumerate(m.blocks):
            w = b.points['X'].value_base
            if k == 0:
                cx.check(w == 9, 'the fixed block keeps its value')
            elif bool(i == k):
                cx.check(w is not None and cx.same(w, v), 'the indexed block has the value')
            else:
                cx.check(w is None, 'the other blocks have no value')
        cx.reach('indexed block')
    else:
        cx.reach('index rejected')


def cases(tier):
    th = tier == 'thorough'
    out = []
    un = 7 if th else 4
    p = lambda t, s: {'type': t, 'sf': s, 'access': 'rw'}
    sfp = lambda i: {'type': 'sunssf', 'id': i}
    st = {'type': 'string', 'len': 8, 'chars': 14 if th else 6}
    ints = [{'type': 'uint16', 'access': 'rw'}, 'int32', 'pad', 'acc64', 'sunssf', st, 'enum16', 'bitfield32']
    how = ['element', 'pathlist', 'device', 'both']
    for h in how:
        out.append(('roundtrip', {'models': [{'fixed': ints}], 'unimpl': un, 'how': h}))
        out.append(('attrs', {'how': h if h != 'element' else 'both'}))
    out.append(('roundtrip', {'models': [{'fixed': MIX2}], 'unimpl': un}))
    out.append(('roundtrip', {'models': [{'fixed': MIX2[::-1] + ['uint64', 'acc16', 'acc32', 'bitfield16', 'enum32', 'count']}], 'unimpl': un}))
    out.append(('roundtrip', {'models': [{'fixed': ['float32', 'float32', {'type': 'string', 'len': 1, 'chars': 1}]}], 'unimpl': 2}))
    for n in (0, 1, 2, 3):
        for sg in (False, True):
            out.append(('roundtrip', {'models': [{'fixed': [p('uint16', 'A'), sfp('A'), p('int32', '-2')], 'rep': [p('int16', 'A'), p('uint32', 'B'), sfp('B')], 'n': n}],
                                      'sfs': [-3, 2] if n == 3 else [-3, None, 2, 0], 'unimpl': 1 if n < 3 else 0, 'single': sg}))
    out.append(('roundtrip', {'models': [{'fixed': ['uint16', 'pad']}, None, {'fixed': ['int16'], 'rep': ['uint16'], 'n': 2}, None], 'unimpl': 1}))
    out.append(('roundtrip', {'models': [{'fixed': ['uint16'], 'id': 64100}, {'fixed': ['uint16'], 'id': 64100}, {'fixed': ['int32'], 'id': 64101}], 'unimpl': 1}))
    for b in (0, 1, 39999, 50000):
        out.append(('roundtrip', {'models': [{'fixed': ['uint16'], 'id': 64100}, None, {'fixed': ['int32'], 'rep': ['int16'], 'n': 2}], 'unimpl': 0, 'base': b, 'how': 'file'}))
    for n in (1, 2, 3):
        out.append(('indexed', {'n': n, 'blocks': 2, 'noimpl': n == 2}))
    out.append(('indexed', {'n': 2, 'blocks': 1}))
    if th:
        out.append(('indexed', {'n': 4, 'blocks': 3}))
    for n in (0, 1, 2, 3):
        out.append(('out_of_range', {'n': n}))
    out.append(('errors', {}))
    for sg in (False, True):
        out.append(('roundtrip', {'models': [{'fixed': [p('uint16', 'A'), sfp('A')], 'rep': [p('int16', 'A'), 'uint32'], 'n': 12}], 'sfs': [-3, 2], 'unimpl': 1, 'single': sg}))
    out.append(('roundtrip', {'models': [{'fixed': ['uint16'], 'id': 64100}, None, {'fixed': ['int32'], 'id': 64101}] * 4, 'unimpl': 0}))
    out.append(('roundtrip', {'models': [{'fixed': [dict(st, len=40, chars=20)] + ['uint16', 'int32', 'enum16'] * 8}], 'unimpl': 1}))
    out.append(('indexed', {'n': 11, 'blocks': 1}))
    out.append(('out_of_range', {'n': 11}))
    out.append(('out_of_range', {'n': 130}))
    for sg in (False, True):
        out.append(('roundtrip', {'models': [{'fixed': [p('uint16', 'A'), sfp('A')], 'rep': [p('int16', 'A'), 'uint32'], 'n': 130}], 'sfs': [-3], 'unimpl': 0, 'single': sg,
                                  'few': [0, 1, 100, 130]}))
    for t in ('uint16', 'int16', 'acc32', 'enum16', 'int64', 'bitfield32', 'ipaddr'):
        for ix in ([None], [2], [None, 2], [1, None]):
            out.append(('pattern', {'type': t, 'index': ix}))
    return out
