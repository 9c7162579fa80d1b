"""Explore the cases of one property, in parallel, and decide its verdict."""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import engine as E
from . import inst, stubs, vals as V
from .harness import SymCx

ROOT = inst.ROOT


def evalsym(m, v, depth=0):
    """Value of v under model m (None-able marker when not exactly evaluable)."""
    import z3
    t = type(v)
    if t is V.SInt:
        x = m.eval(v.ie if v.ie is not None else v.e, model_completion=True)
        if v.ie is not None:
            return x.as_long()
        return x.as_signed_long() if v.sg else x.as_long()
    if t is V.SBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if t in (V.SBytes, V.SByteArray):
        return ['bytes', [evalsym(m, i) for i in v.items]]
    if t is V.SFloat:
        import struct
        b = evalsym(m, v.b) if type(v.b) is not int else v.b
        return ['f', repr(struct.unpack('>f', struct.pack('>I', b))[0])]
    if t is V.SReal:
        return ['approx']
    if t is float:
        return ['f', repr(v)]
    if t is str or t is V.SStr:
        v = V.lift(v) if t is str else v
        if type(v) is str:
            return v
        out = []
        for i in v.items:
            if type(i) is str:
                out.append(i)
            elif type(i) is V.SInt:
                out.append(chr(evalsym(m, i)))
            else:
                if type(i.v) is V.SInt:
                    x = evalsym(m, i.v)
                    out.append({'d': '%0*d', 'x': '%0*x', 'X': '%0*X'}[i.kind] % (i.width, x))
                elif type(i.v) is V.SFloat:
                    out.append(evalsym(m, i.v)[1])
                else:
                    return ['approx']
        return ''.join(out)
    if t in (bytes, bytearray):
        return ['bytes', list(v)]
    if t in (list, tuple):
        return ['list', [evalsym(m, i) for i in v]]
    if t is dict:
        return ['dict', sorted(([str(evalsym(m, k)), evalsym(m, x)] for k, x in v.items()), key=lambda p: p[0])]
    if v is None or t in (int, bool):
        return v
    return repr(type(v).__name__)


def plain(v):
    """same normal form for native values"""
    return evalsym(None, v)


def exc_name(e):
    return type(e).__name__


def where(tb):
    """innermost frame inside /repo"""
    w = ''
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if '/sunspec/' in f:
            w = '%s:%s' % (os.path.basename(f), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return w


def explore(world, fn, params, opts):
    E.cur = None
    ctx = SymCx(params, deadline=time.time() + opts['budget'], query_timeout_ms=opts.get('query_ms', 20000),
                enum_cap=opts.get('enum_cap', 400), tick_limit=opts.get('ticks', 60000), seed=opts.get('seed', 1))
    ctx.world = world
    E.cur = ctx
    t0 = time.time()
    nw = opts.get('witnesses', 2)
    crash = None
    try:
        while True:
            ctx.paths += 1
            world.restore()
            stubs.install()
            err = None
            try:
                try:
                    fn(ctx)
                except E.PathEnd:
                    err = 'end'
                except E.EngineAbort:
                    raise
                except Exception as e:
                    ctx.aborting = False
                    label = 'uncaught %s %s' % (exc_name(e), where(e.__traceback__))
                    if os.environ.get('SYMX_TRACE'):
                        traceback.print_exc()
                    tb = e.__traceback__
                    while tb.tb_next:
                        tb = tb.tb_next
                    if '/symx/' in tb.tb_frame.f_code.co_filename:
                        label += ' [in model %s:%d]' % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
                    err = 'end'
                    try:
                        ctx.fail(label)
                    except E.PathEnd:
                        pass
                if err is None:
                    ctx.ended += 1
                    if ctx.ended <= nw or (ctx.ended % opts.get('wevery', 997) == 0 and len(ctx.witnesses) < 12):
                        try:
                            m = ctx.need_model()
                            ctx.witnesses.append({'inputs': ctx.extract(m), 'approx': ctx.path_approx,
                                                  'log': [[n, evalsym(m, v)] for n, v in ctx.log]})
                        except E.PathEnd:
                            ctx.ended -= 1
            except E.Nondet as e:
                ctx.note_incomplete('nondeterministic re-execution: %s' % e)
                break
            if not ctx.backtrack():
                break
            if ctx.paths >= ctx.max_paths:
                ctx.note_incomplete('path cap')
                break
            if time.time() > ctx.deadline:
                ctx.note_incomplete('time budget')
                break
            if len(ctx.candidates) >= opts.get('max_candidates', 6):
                break
            ctx.begin()
    except E.Budget:
        pass
    finally:
        E.cur = None
    return {'paths': ctx.paths, 'ended': ctx.ended, 'decisions': ctx.decisions, 'queries': ctx.queries,
            'sat': ctx.sat, 'unsat': ctx.unsat, 'unknown': ctx.unknown, 'solver_time': ctx.solver_time,
            'max_query': ctx.max_query, 'second': ctx.second, 'checks_struct': ctx.checks_struct, 'checks_solver': ctx.checks_solver,
            'checks_unknown': ctx.checks_unknown, 'incomplete': ctx.incomplete, 'concretised': ctx.concretised,
            'functions': sorted(ctx.functions), 'reached': ctx.reached, 'labels': ctx.check_labels,
            'candidates': ctx.candidates, 'witnesses': ctx.witnesses, 'wall': time.time() - t0}


# ------------------------------------------------------------------ worker pool
_world = None
_mod = None


def make_world():
    w = inst.World(stubs.STUBS)
    for m in ('sunspec.core.util', 'sunspec.core.suns', 'sunspec.core.smdx', 'sunspec.core.pics', 'sunspec.core.device',
              'sunspec.core.modbus.mbmap', 'sunspec.core.modbus.client', 'sunspec.core.client', 'sunspec.core.data'):
        w.load(m)
    return w


def work(job):
    i, fname, params, opts = job
    try:
        r = explore(_world, getattr(_mod, fname), params, opts)
    except BaseException as e:
        r = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()}
    r['index'] = i
    r['case'] = fname
    r['params'] = params
    return r


def serve(conn):
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)        # end with the parent
    except Exception:
        pass
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        conn.send(work(job))
    conn.close()
    os._exit(0)


class Workers(object):
    """n forked workers, each with a pipe of its own; a worker that dies costs its job only"""

    def __init__(self, jobs, n, recycle):
        self.ctx = multiprocessing.get_context('fork')
        self.queue = list(reversed(jobs))
        self.n = n
        self.recycle = recycle
        self.live = {}                # conn -> [process, job or None, jobs done]
        self.done = []
        self.fill()

    def give(self, conn):
        w = self.live[conn]
        w[1] = self.queue.pop()
        conn.send(w[1])

    def end(self, conn, kill=False):
        w = self.live.pop(conn)
        if kill:
            w[0].kill()
        else:
            try:
                conn.send(None)
            except OSError:
                pass
        conn.close()
        w[0].join(5)
        if w[0].is_alive():
            w[0].kill()
            w[0].join(5)

    def fill(self):
        while self.queue and len(self.live) < self.n:
            a, b = self.ctx.Pipe()
            p = self.ctx.Process(target=serve, args=(b,))
            p.daemon = True
            p.start()
            b.close()
            self.live[a] = [p, None, 0]
            self.give(a)

    def busy(self):
        return bool(self.live or self.done or self.queue)

    def next(self, stop):
        """the next result, or None at the time given"""
        while not self.done:
            left = stop - time.time()
            if left <= 0 or not self.live:
                return None
            for conn in multiprocessing.connection.wait(list(self.live), timeout=left):
                w = self.live[conn]
                try:
                    self.done.append(conn.recv())
                    w[2] += 1
                    if self.queue and w[2] < self.recycle:
                        self.give(conn)
                    else:
                        self.end(conn)
                except (EOFError, OSError):
                    i, fname, params, opts = w[1]
                    self.done.append({'error': 'worker died', 'index': i, 'case': fname, 'params': params})
                    self.end(conn, kill=True)
                self.fill()
        return self.done.pop(0)

    def stop(self):
        for w in self.live.values():
            w[0].kill()
        for conn in list(self.live):
            self.end(conn, kill=True)


def native(modname, jobs, timeout=300):
    """Run harness cases natively in a fresh process; jobs: [{case, params, inputs}]."""
    if not jobs:
        return []
    with tempfile.TemporaryDirectory(prefix='symx-') as d:
        a, b = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(a, 'w') as f:
            json.dump({'module': modname, 'jobs': jobs}, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=ROOT)
        try:
            p = subprocess.run([sys.executable, '-m', 'symx.native', a, b], cwd=d, env=env, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            err = p.stdout.decode('utf-8', 'replace')[-2000:]
        except subprocess.TimeoutExpired:
            err = 'timeout'
        out = []
        if os.path.exists(b):
            with open(b) as f:
                for line in f:
                    try:
                        out.append(json.loads(line))
                    except ValueError:
                        break
        while len(out) < len(jobs):
            out.append({'status': 'error', 'detail': 'native run stopped: ' + err})
        return out


def run_property(pid, tier, seed):
    global _world, _mod
    t0 = time.time()
    modname = 'props.' + pid.lower()
    load_error = None
    _world = None
    try:
        _world = make_world()
        _mod = _world.load(modname)
        _world.snapshot()
    except Exception as e:
        load_error = '%s: %s' % (type(e).__name__, e)
        traceback.print_exc()
    rep = {'property': pid, 'tier': tier, 'seed': seed}
    if load_error:
        rep['load_error'] = load_error
        rep['results'] = []
        rep['wall'] = time.time() - t0
        return rep, [], []
    meta = _mod.META
    tiermeta = meta.get(tier, {})
    budget = tiermeta.get('budget', 400 if tier == 'quick' else 600)
    total = tiermeta.get('total', 740 if tier == 'quick' else 780)
    cases = _mod.cases(tier)
    if os.environ.get('SYMX_CASE'):           # development aid: run one given case
        cn, cp = os.environ['SYMX_CASE'].split(' ', 1)
        cases = [(cn, json.loads(cp))]
    jobs = []
    for i, c in enumerate(cases):
        fname, params = c[0], c[1]
        o = {'budget': budget, 'seed': seed}
        o.update(meta.get('opts', {}))
        if len(c) > 2:
            o.update(c[2])
        jobs.append((i, fname, params, o))
    n = int(os.environ.get('SYMX_JOBS', '0')) or min(8, os.cpu_count() or 1)
    results = []
    confirmed = False
    if n == 1 or len(jobs) == 1:
        for j in jobs:
            results.append(work(j))
        from . import engine
        for k, v in sorted((engine.FORKS or {}).items(), key=lambda x: -x[1])[:25]:
            print('fork %6d %s' % (v, k))
    else:
        pool = Workers(jobs, n, tiermeta.get('maxtasks', 8))
        stop = t0 + total
        try:
            while pool.busy():
                r = pool.next(stop)
                if r is None:
                    break
                results.append(r)
                if r.get('candidates') and not confirmed:
                    nat = native(modname, [{'case': r['case'], 'params': r['params'], 'inputs': c['inputs']} for c in r['candidates'][:6]])
                    confirmed = any(x['status'] == 'violation' for x in nat)
                    if confirmed:             # a real violation is in hand: give the rest a minute more
                        stop = min(stop, time.time() + float(os.environ.get("SYMX_GRACE", "60")))
        finally:
            pool.stop()
    done = set(r['index'] for r in results)
    for j in jobs:
        if j[0] not in done:
            results.append({'index': j[0], 'case': j[1], 'params': j[2], 'error': 'total time budget' if not confirmed else 'stopped after a confirmed violation'})
    results.sort(key=lambda r: r['index'])
    rep['results'] = results
    # ---- native confirmation of candidates, native validation of witnesses
    cand, wit = [], []
    for r in results:
        seen = {}
        for c in r.get('candidates', ()):
            seen[c['label']] = seen.get(c['label'], 0) + 1
            if seen[c['label']] <= 12:
                cand.append({'case': r['case'], 'params': r['params'], 'inputs': c['inputs'], 'label': c['label'],
                             'approx': c['approx']})
        for w in r.get('witnesses', ()):
            wit.append({'case': r['case'], 'params': r['params'], 'inputs': w['inputs'], 'log': w['log'],
                        'approx': w['approx']})
    if len(wit) > 400:
        step = len(wit) / 400.0
        wit = [wit[int(i * step)] for i in range(400)]
    cand = cand[:200]
    res = native(modname, cand + wit)
    for c, r in zip(cand + wit, res):
        c['native'] = r
    rep['wall'] = time.time() - t0
    return rep, cand, wit
