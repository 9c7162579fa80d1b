"""C20 SunSpec data documents survive a serialise/parse round trip"""
import xml.etree.ElementTree as ET

from props.lib import *

DATA = 'sunspec.core.data'
META = {
    'bounds': {'quick': 'documents of 0..2 devices, 0..2 models and 0..2 points, and of 11 or 12 of one of them; every attribute of every record present or absent with arbitrary printable text '
                        'of up to 3 characters, arbitrary integer values, indexes 2..70000 (models) and 1..70000 (points), scale factors -20..20 including 0; '
                        'sampled texts that need escaping, fractional values and timestamps; plain and indented output; unexpected elements of 16 names '
                        'at every level',
               'thorough': 'as quick with attribute texts of up to 6 characters and three records per level'},
    'outside': 'empty texts, texts with control characters, default indexes given explicitly (model index 1, point index 0), units and descriptions',
    'reach': ['round trip', 'indented', 'unexpected element', 'timestamp', 'element'],
}
DEV = {'logger_id': 'lid', 'man': 'man', 'mod': 'mod', 'sn': 'sn', 'cid': 'cid', 'device_id': 'id', 'ifc': 'if', 'namespace': 'ns'}
SPECIAL = ['a<b', 'x&y', '"q"', "it's", 'a>b', ' pad ', 'M\xfcller', 'x\ty']
STAMPS = [(1387560564.48, '2013-12-20T17:29:24Z'), (0, '1970-01-01T00:00:00Z'), (951782399, '2000-02-28T23:59:59Z'), (1709210096.999, '2024-02-29T12:34:56Z'),
          (4102444799, '2099-12-31T23:59:59Z')]


def txt(cx, name):
    return cx.chars(name, cx.choice('n_' + name, cx.p.get('lens', [1, 3])), 32, 126, exclude='<>&"')


def opt(cx, name, f):
    return f() if cx.choice('has_' + name, [0, 1]) else None


def records(doc):
    out = []
    for d in doc.device_data:
        ms = []
        for m in d.model_data:
            ps = [(p.point_id, None if p.value is None else str(p.value), p.index, p.sf, p.time) for p in m.point_data]
            ms.append((m.model_id, m.namespace, m.index, ps))
        out.append(([getattr(d, k) for k in DEV], d.timestamp, ms))
    return out


def again(cx, doc, pretty):
    """serialise, parse; the document parsed has the same records and serialises to the same text"""
    data = cx.mod(DATA)
    before = records(doc)
    text = doc.to_xml_str(pretty_print=pretty)
    cx.check(cx.same(records(doc), before), 'serialising changes nothing')
    q = data.SunSpecData(data_record=text)
    cx.check(cx.same(records(q), before), 'the parsed document has the same records')
    plain = text if not pretty else doc.to_xml_str()
    cx.check(cx.same(q.to_xml_str(), plain), 'the parsed document serialises to the same text')
    cx.check(cx.same(q.version, doc.version), 'the version is preserved')
    if pretty:
        cx.reach('indented')
    cx.reach('round trip')
    return q


def devices(cx):
    data = cx.mod(DATA)
    doc = data.SunSpecData()
    vary = cx.p['vary']
    for i in range(cx.p['n']):
        kw = {}
        for k in DEV:
            if k in vary:
                v = opt(cx, k + str(i), lambda: txt(cx, k + str(i)))
                if v is not None:
                    kw[k] = v
        st = opt(cx, 't%d' % i, lambda: cx.choice('stamp%d' % i, STAMPS)) if cx.p.get('stamps') else None
        if st:
            kw['timestamp'] = st[0]
        d = doc.device_add(**kw)
        for k in DEV:
            cx.check(cx.same(getattr(d, k), kw.get(k)), 'attributes are those given')
        cx.check(d.timestamp == (st[1] if st else None), 'the timestamp is UTC in ISO format')
        if st:
            cx.reach('timestamp')
    cx.check(len(doc.device_data) == cx.p['n'], 'every device is added')
    text = doc.to_xml_str()
    q = again(cx, doc, False)
    again(cx, q, cx.p.get('pretty', False))
    root = ET.fromstring(text)
    for d, e in zip(doc.device_data, root):
        for k, a in DEV.items():
            cx.check(cx.same(e.attrib.get(a), getattr(d, k)), 'attribute names in the document')
        cx.check(e.attrib.get('t') == d.timestamp, 'attribute names in the document')


def points(cx):
    data = cx.mod(DATA)
    doc = data.SunSpecData()
    nd, nm, npt = cx.p['shape']
    vary = cx.p['vary']
    want = []
    for i in range(nd):
        d = doc.device_add(man='dev%d' % i)
        wm = []
        for j in range(nm):
            t = '%d_%d' % (i, j)
            mid = cx.int('mid' + t, 0, 65535) if 'mid' in vary else 1 + j
            idx = opt(cx, 'x' + t, lambda: cx.int('idx' + t, 2, 70000)) if 'midx' in vary else None
            ns = opt(cx, 'ns' + t, lambda: txt(cx, 'mns' + t)) if 'ns' in vary else None
            m = d.model_add(mid, idx, ns)
            wp = []
            for k in range(npt):
                u = t + '_%d' % k
                pid = txt(cx, 'pid' + u) if 'pid' in vary else 'P%d' % k
                val = 5
                if 'int' in vary:
                    val = cx.int('val' + u, -(1 << 63), (1 << 64) - 1)
                elif 'text' in vary:
                    val = txt(cx, 'val' + u)
                elif 'special' in vary:
                    val = cx.choice('val' + u, SPECIAL + [1.5, -0.1, 1e300, 0, '0'] if list(cx.p['shape']) == [1, 1, 1] else SPECIAL[:3] + [1.5])
                    pid = cx.choice('spid' + u, SPECIAL[:5] + ['W'])
                val = opt(cx, 'v' + u, lambda: val) if 'noval' in vary else val
                kw = {}
                if 'sf' in vary and cx.choice('hassf' + u, [0, 1]):
                    kw['sf'] = cx.int('sf' + u, -20, 20)
                if 'pidx' in vary and cx.choice('haspx' + u, [0, 1]):
                    kw['index'] = cx.int('px' + u, 1, 70000)
                if 'time' in vary and cx.choice('haspt' + u, [0, 1]):
                    kw['time'] = txt(cx, 'pt' + u)
                more = cx.choice('more', [{}, {'units': 'W'}, {'desc': 'text'}, {'units': 'Wh', 'desc': ''}]) if list(cx.p['shape']) == [1, 1, 1] and 'int' in vary else {}
                q = m.point_add(pid, val, **dict(kw, **more))
                cx.check(q is m.point_data[-1] and [q.units, q.desc] == [more.get('units'), more.get('desc')], 'records hold what was added')
                wp.append((pid, None if val is None else str(val), kw.get('index'), kw.get('sf'), kw.get('time')))
            wm.append((str(mid), ns, idx, wp))
        want.append(wm)
    cx.check(cx.same([r[2] for r in records(doc)], want), 'records hold what was added')
    q = again(cx, doc, False)
    cx.check(cx.same([r[2] for r in records(q)], want), 'the parsed document has the records that were added')
    again(cx, q, True)
    again(cx, doc, True)
    # attached to a parent element, and parsed from an element
    par = ET.Element('top')
    doc.to_xml(par)
    sub = par[0]
    r = data.SunSpecData(element=sub)
    cx.check(cx.same(records(r), records(doc)), 'a document attached to a parent element has the same records')
    doc.to_xml()
    r = data.SunSpecData(element=doc.root)
    cx.check(cx.same(records(r), records(doc)), 'a document serialised to an element has the same records')
    cx.reach('element')


def version(cx):
    data = cx.mod(DATA)
    v = opt(cx, 'v', lambda: txt(cx, 'ver'))
    s = '<sunSpecData' + ('' if v is None else ' v="' + v + '"') + '><d sn="1" /></sunSpecData>'
    q = data.SunSpecData(data_record=s)
    cx.check(cx.same(q.version, v), 'version')
    cx.check(cx.same(again(cx, q, False).version, v), 'version')
    q.to_xml()
    cx.check(cx.same(data.SunSpecData(element=q.root).version, v), 'version')
    par = ET.Element('top')
    q.to_xml(par)
    cx.check(cx.same(data.SunSpecData(element=par[0]).version, v), 'version')


def unexpected(cx):
    data = cx.mod(DATA)
    tag = cx.choice('tag', ['x', 'd', 'm', 'p', 'D', 'M', 'P', 'dd', 'mp', 'device', 'model', 'point', 'sunspecdata', 'sunSpecData', 'sunSpecDat', 'sunSpecPics'])
    lvl = cx.p['level']
    good = ['sunSpecData', 'd', 'm', 'p'][lvl]
    el = '<' + tag + ' id="1" />' if lvl else '<' + tag + '></' + tag + '>'
    pre = cx.choice('pre', [0, 1])
    sib = ['', '<d />', '<m id="1" />', '<p id="a">1</p>'][lvl] if pre else ''
    s = sib + el
    if lvl == 3:
        s = '<m id="1">' + s + '</m>'
    if lvl >= 2:
        s = '<d>' + s + '</d>'
    if lvl >= 1:
        s = '<sunSpecData>' + s + '</sunSpecData>'
    r, e = cx.raises(lambda: data.SunSpecData(data_record=s), data.SunSpecDataError)
    cx.check(cx.iff(tag == good, e is None), 'exactly unexpected elements are rejected')
    if e is not None:
        cx.reach('unexpected element')


def cases(tier):
    th = tier == 'thorough'
    ln = [1, 3, 6] if th else [1, 3]
    out = []
    ks = list(DEV)
    for k in ks:
        out.append(('devices', {'n': 2, 'vary': [k], 'lens': ln}))
    for i in range(0, len(ks)):
        out.append(('devices', {'n': 1, 'vary': [ks[i], ks[(i + 1) % len(ks)], ks[(i + 3) % len(ks)]], 'lens': [2], 'pretty': i % 2 == 0}))
    out.append(('devices', {'n': 2, 'vary': [], 'stamps': 1, 'pretty': True}))
    out.append(('devices', {'n': 0, 'vary': []}))
    for sh in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 0), (1, 0, 0), (0, 0, 0)] + ([(2, 2, 1), (1, 2, 3), (3, 1, 1), (1, 3, 1)] if th else []):
        for v in (['mid'], ['midx'], ['ns'], ['pid'], ['int'], ['text'], ['special'], ['noval'], ['noval', 'time'], ['noval', 'sf'], ['noval', 'pidx'], ['sf'], ['pidx'], ['time'], ['sf', 'pidx'], ['mid', 'midx', 'int']):
            if sh[0] * sh[1] * sh[2] * len(v) > 4 and v != ['int']:
                continue
            if sh[2] == 0 and v[0] not in ('mid', 'midx', 'ns'):
                continue
            out.append(('points', {'shape': sh, 'vary': v, 'lens': ln[-2:]}))
    out.append(('points', {'shape': (1, 1, 1), 'vary': ['midx', 'ns', 'int', 'sf'], 'lens': [2]}))
    out.append(('points', {'shape': (1, 1, 1), 'vary': ['pid', 'int', 'sf', 'pidx', 'time'], 'lens': [2]}))
    out.append(('version', {}))
    for lvl in range(4):
        out.append(('unexpected', {'level': lvl}))
    for sh in [(1, 1, 12), (1, 12, 1), (11, 1, 1)]:
        out.append(('points', {'shape': sh, 'vary': ['int'], 'lens': [1]}))
    out.append(('points', {'shape': (1, 1, 1), 'vary': ['text'], 'lens': [40]}))
    out.append(('devices', {'n': 11, 'vary': [], 'lens': [1]}))
    return out
