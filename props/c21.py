"""C21 file lookup returns the first match along the path list"""
from props.lib import *

UTIL = 'sunspec.core.util'
META = {
    'bounds': {'quick': 'path lists of up to 4 (and 12) entries, each any of 13 kinds (existing directory, nested directory, missing directory, '
                        'zip root, directory in a zip, nested directory in a zip in a subdirectory, missing zip, directory in a missing zip; directories and archives with or without trailing separator; directories, and directories in archives, with .zip inside their names), with any combination of '
                        'the file, the archive and the archive member being present; any file content in directories, empty files included; plain names and names below a subdirectory; '
                        'paths added one by one or given to the constructor; lookups repeated and through the device module; files and archives that appear, change or disappear between lookups',
               'thorough': 'as quick with lists of up to 5 entries'},
    'outside': 'relative paths, corrupt archives, directories named *.zip',
    'reach': ['directory', 'zip', 'not found', 'second entry', 'last entry', 'pics', 'definition', 'changed'],
}
NAMES = ['f.xml', 'sub/g.xml']
# path -> kind of container
DIRS = ['a', 'b/c', 'a/', 'nx', 'b', 'm.zip.d', 'm.zip.d/', 'a.zipped/c', 'zip']
ZIPS = ['z.zip', 'z.zip/in', 'd/y.zip/in/ner', 'nz.zip', 'nz.zip/in']
MOREZIPS = ['m.zip.d/z.zip', 'm.zip.d/z.zip/in', 'z.zip/in.zip.d', 'z.zip/', 'z.zip/in/', 'd/y.zip/in/ner/', 'nz.zip/in/']


def content(cx, t):
    n = cx.choice('len_' + t, [3, 0]) if cx.p.get('empty') else 3
    return cx.bytes('c_' + t, n) if n else b''


def tree(cx, used, name):
    """files for the used paths; {path: content or None}"""
    files, zips, want = [], {}, {}
    for p in sorted(set(used)):
        t = p.replace('/', '_').replace('.', '_')
        if p in DIRS:
            d = p.rstrip('/')
            if p == 'nx':
                want[p] = None
                continue
            if any(x[0] == d + '/' + name for x in files):
                want[p] = [w for q, w in want.items() if q.rstrip('/') == d][0]
                continue
            pr = cx.choice('has_' + t, [1, 0])
            c = content(cx, t) if pr else b''
            files.append((d + '/' + name, bool(pr), c))
            want[p] = c if pr else None
        elif p.startswith('nz'):
            want[p] = None
        else:
            cut = (p + '/').index('.zip/') + 4
            z, inner = p[:cut], p[cut + 1:]
            inner = inner.rstrip('/')
            same = [w for q, w in want.items() if q.rstrip('/') == p.rstrip('/')]
            if same:
                want[p] = same[0]
                continue
            if z not in zips:
                zips[z] = (cx.choice('zip_' + z.replace('/', '_').replace('.', '_'), [1, 0]), [('other.txt', True, b'x')])
            pr = cx.choice('has_' + t, [1, 0])
            c = b'content of ' + p.encode()
            if cx.p.get('empty') and pr and cx.choice('len_' + t, [3, 0]) == 0:
                c = b''
            zips[z][1].append(((inner + '/' if inner else '') + name, bool(pr), c))
            want[p] = c if pr and zips[z][0] else None
    root = cx.file_tree(files, [('a', True), ('b', True), ('b/c', True), ('d', True), ('m.zip.d', True), ('a.zipped', True), ('a.zipped/c', True), ('zip', True)], [(z, bool(pr), m) for z, (pr, m) in zips.items()])
    return root, want


def lookup(cx):
    util = cx.mod(UTIL)
    name = cx.choice('name', NAMES) if cx.p.get('names') else NAMES[0]
    kinds = cx.p['kinds']
    n = cx.choice('n', list(range(cx.p['n'] + 1)))
    paths = list(cx.p.get('lead', [])) + [cx.choice('p%d' % i, kinds) for i in range(n)]
    n = len(paths)
    root, want = tree(cx, paths, name)
    full = [root + '/' + p for p in paths]
    if cx.p.get('ctor'):
        pl = util.PathList(full)
    else:
        pl = util.PathList()
        for p in full:
            pl.add(p)
    for rep in range(cx.p.get('times', 1)):
        exp = [(i, want[p]) for i, p in enumerate(paths) if want[p] is not None]
        r, e = cx.raises(lambda: pl.read(name), NameError)
        if not exp:
            cx.check(e is not None, 'a file found nowhere raises NameError')
            cx.reach('not found')
            continue
        cx.check(e is None, 'a file in the path list is found')
        if e is None:
            i, c = exp[0]
            cx.check(cx.same(r, c), 'the contents come from the first path that has the file')
            cx.reach('directory' if paths[i] in DIRS else 'zip')
            if i == 1:
                cx.reach('second entry')
            if i == n - 1 and i > 0:
                cx.reach('last entry')
    for other in ['other.xml'] + [x for x in (name + '.', name + ' ', ' ' + name, name[:-1], name.upper(), name + '.xml', name + '.zip', '_' + name, name.replace('.', '_'))
                                  if x not in NAMES]:
        r, e = cx.raises(lambda: pl.read(other), NameError)
        cx.check(e is not None, 'another name is not found')


def later(cx):
    """files and archives that change between lookups"""
    util = cx.mod(UTIL)
    name = 'f.xml'
    kinds = cx.p['kinds']
    paths = [cx.choice('p%d' % i, kinds) for i in range(cx.p['n'])]
    pl = None
    for rnd in range(cx.p['rounds']):
        files, zips, want = [], {}, {}
        for p in sorted(set(paths)):
            t = '%s_%d' % (p.replace('/', '_').replace('.', '_'), rnd)
            pr = cx.choice('has_' + t, [1, 0])
            if p in DIRS:
                c = cx.bytes('c_' + t, 2)
                files.append((p + '/' + name, bool(pr), c))
            else:
                c = ('%s in round %d' % (p, rnd)).encode()
                z, inner = p[:p.index('.zip') + 4], p[p.index('.zip') + 5:]
                # without its only member an archive is sometimes missing altogether
                zips.setdefault(z, []).append(((inner + '/' if inner else '') + name, bool(pr), c))
            want[p] = c if pr else None
        zl = [(z, bool(cx.choice('zip_%d' % rnd, [1, 0])) or any(x[1] for x in m), [('other.txt', True, b'x')] + m) for z, m in sorted(zips.items())]
        root = cx.file_tree(files, [('a', True), ('b', True), ('b/c', True)], zl, again=rnd > 0)
        if pl is None:
            pl = util.PathList()
            for p in paths:
                pl.add(root + '/' + p)
        exp = [want[p] for p in paths if want[p] is not None]
        r, e = cx.raises(lambda: pl.read(name), NameError)
        cx.check((e is None) == bool(exp), 'a file is found exactly when a path has it at that time')
        if exp:
            cx.check(e is None and cx.same(r, exp[0]), 'the contents are those the first path has at that time')
        if rnd:
            cx.reach('changed')


def through_device(cx):
    """definitions and PICS documents are found through path lists"""
    device = cx.mod('sunspec.core.device')
    util = cx.mod(UTIL)
    defs = [model_xml(64100, 1 + k, [block([point('P', 'uint16', 0)], 1 + k)]) for k in range(3)]
    doc = '<sunSpecPics><device addr="%d"><model id="64100" len="%d"><block><point id="P">%d</point></block></model></device></sunSpecPics>'
    has = [cx.choice('def%d' % k, [1, 0]) for k in range(3)]
    pics = [cx.choice('pics%d' % k, [1, 0]) for k in range(2)]
    files = [('a/smdx_64100.xml', bool(has[0]), defs[0].encode()), ('b/smdx_64100.xml', bool(has[1]), defs[1].encode()),
             ('a/dev.xml', bool(pics[0]), (doc % (100, 3, 5)).encode()), ('b/dev.xml', bool(pics[1]), (doc % (200, 3, 6)).encode())]
    root = cx.file_tree(files, [('a', True), ('b', True)], [('z.zip', True, [('in/smdx_64100.xml', bool(has[2]), defs[2].encode())])])
    pl = util.PathList()
    for p in ('a', 'z.zip/in', 'b'):
        pl.add(root + '/' + p)
    device.file_pathlist = pl
    order = [0, 2, 1]
    found = [k for k in order if has[k]]
    r, e = cx.raises(lambda: device.model_type_get(64100), device.SunSpecError)
    cx.check((e is None) == bool(found), 'a definition is found exactly when a path has it')
    if found:
        cx.check(e is None and r.len == 1 + found[0], 'the first definition along the path list is used')
        cx.reach('definition')
    own = util.PathList([root + '/b'])
    d = device.Device()
    which = cx.choice('pathlist', [0, 1])
    if (pics[1] and which) or pics[0] or pics[1]:
        d.from_pics(filename='dev.xml', pathlist=own if which else None)
        k = 1 if (which and pics[1]) or not pics[0] else 0
        cx.check(d.base_addr == (100, 200)[k], 'the given path list is searched before the module path list')
        cx.reach('pics')
    # a scoped path list applies inside the block only
    with device.fresh_file_pathlist(root + '/b') as fp:
        r, e = cx.raises(lambda: device.model_type_get(64100), device.SunSpecError)
        cx.check((e is None) == bool(has[1]), 'a scoped path list replaces the module path list')
    cx.check(device.file_pathlist is pl, 'the module path list is restored')


def cases(tier):
    th = tier == 'thorough'
    allk = DIRS[:4] + ZIPS
    out = []
    out.append(('lookup', {'kinds': allk, 'n': 2, 'names': 1}))
    out.append(('lookup', {'kinds': allk, 'n': 2, 'ctor': 1, 'times': 2}))
    for k in (['a', 'z.zip', 'nx'], ['a', 'b/c', 'z.zip/in'], ['z.zip', 'z.zip/in', 'a'], ['d/y.zip/in/ner', 'nz.zip', 'a'], ['nz.zip/in', 'z.zip/in', 'b/c'],
              ['nx', 'a/', 'nz.zip']):
        out.append(('lookup', {'kinds': k, 'n': 4}))
        if th:
            out.append(('lookup', {'kinds': k + ['b'], 'n': 5}))
    if th:
        out.append(('lookup', {'kinds': allk, 'n': 3, 'names': 1}))
    for k in (['a', 'z.zip'], ['z.zip/in', 'b/c'], ['z.zip/in', 'z.zip']):
        out.append(('lookup', {'kinds': k, 'n': 2, 'empty': 1}))
    out.append(('through_device', {}))
    out.append(('lookup', {'kinds': ['a', 'z.zip/in'], 'n': 4, 'lead': ['nx', 'nz.zip'] * 4}))
    for k in (['z.zip/', 'z.zip', 'a'], ['z.zip/in/', 'z.zip/in', 'z.zip'], ['d/y.zip/in/ner/', 'nz.zip/in/', 'a/'], ['z.zip/', 'z.zip/in/', 'b/c']):
        out.append(('lookup', {'kinds': k, 'n': 3 if th else 2, 'names': 1}))
    for k in (['m.zip.d', 'a', 'm.zip.d/z.zip'], ['a.zipped/c', 'm.zip.d/', 'z.zip'], ['zip', 'm.zip.d/z.zip/in', 'm.zip.d'], ['z.zip/in.zip.d', 'm.zip.d', 'z.zip/in']):
        out.append(('lookup', {'kinds': k, 'n': 3 if th else 2, 'names': 1}))
    for k in (['a', 'z.zip'], ['z.zip/in', 'b/c'], ['z.zip', 'z.zip/in']):
        out.append(('later', {'kinds': k, 'n': 2, 'rounds': 2}))
    out.append(('later', {'kinds': ['z.zip', 'a'], 'n': 1, 'rounds': 3}))
    return out
