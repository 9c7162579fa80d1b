"""Native re-execution of harness cases over a plain import of the code under test."""
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')


class Hang(BaseException):
    pass


def setup():
    sys.dont_write_bytecode = True
    for p in (ROOT, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    from . import stubs
    sys.modules['serial'] = stubs.STUBS['serial']
    sys.modules['socket'] = stubs.STUBS['socket']
    sys.modules['ssl'] = stubs.STUBS['ssl']
    time.sleep = stubs.sleep
    import sunspec
    assert os.path.realpath(sunspec.__file__).startswith(os.path.realpath(REPO) + '/'), sunspec.__file__


def alarm(*a):
    raise Hang()


class Snapshot(object):
    def __init__(self):
        from . import inst
        self.w = inst.World({})
        self.w.mods = dict((n, m) for n, m in sys.modules.items() if n.startswith('sunspec'))
        self.w.snapshot()

    def restore(self):
        self.w.restore()


def run_one(mod, job, seconds=10):
    from . import harness, stubs, run
    cx = harness.NatCx(job['params'], job['inputs'])
    stubs.install()
    out = {}
    old = sys.stdout
    sys.stdout = io.StringIO()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        getattr(mod, job['case'])(cx)
        out = {'status': 'ok'}
    except harness.CheckFailed as e:
        out = {'status': 'violation', 'detail': str(e)}
    except harness.AssumeFailed as e:
        out = {'status': 'assume', 'detail': str(e)}
    except harness.NoSuchInput as e:
        out = {'status': 'diverged', 'detail': 'input %s' % e}
    except Hang:
        out = {'status': 'violation', 'detail': 'does not terminate (%d s)' % seconds}
    except Exception as e:
        w = ''
        tb = e.__traceback__
        last = ''
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            last = f
            if '/sunspec/' in f:
                w = '%s:%d in %s' % (os.path.relpath(f, REPO), tb.tb_lineno, tb.tb_frame.f_code.co_name)
            tb = tb.tb_next
        out = {'status': 'violation', 'detail': 'uncaught %s: %s (%s)' % (type(e).__name__, str(e)[:200], w or last)}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = old
        cx.cleanup()
    out['log'] = [[n, run.plain(v)] for n, v in cx.log]
    out['reached'] = cx.reached
    return out


def main(argv):
    setup()
    with open(argv[0]) as f:
        spec = json.load(f)
    mod = importlib.import_module(spec['module'])
    for m in ('sunspec.core.util', 'sunspec.core.suns', 'sunspec.core.smdx', 'sunspec.core.pics', 'sunspec.core.device',
              'sunspec.core.modbus.mbmap', 'sunspec.core.modbus.client', 'sunspec.core.client', 'sunspec.core.data'):
        importlib.import_module(m)
    snap = Snapshot()
    hangs = 0
    with open(argv[1], 'w') as f:
        for job in spec['jobs']:
            snap.restore()
            if hangs >= 3:
                r = {'status': 'skipped', 'log': [], 'reached': {}}
            else:
                r = run_one(mod, job)
            if 'terminate' in r.get('detail', ''):
                hangs += 1
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main(sys.argv[1:])
