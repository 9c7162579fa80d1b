"""Path exploration: decision stack, solver, inputs.

One Ctx explores all paths of one harness case by depth-first re-execution.  The solver's
push/pop scopes are aligned with the decision stack, so a prefix is asserted once only.
"""
import os
import time
import z3

# values at which arithmetic tends to go wrong (see Engine._pinned)
CORNERS = [0, 1, -1, 2, 3, 5, 7, 9, 10, 99, 100, 127, 128, 255, 256, 1000, 32767, 32768, -32768, 65534, 65535, 16777217, 2 ** 31 - 1, -2 ** 31, 2 ** 32 - 1,
           2 ** 53 + 1, -2 ** 53 - 1, 10 ** 17 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1]

cur = None            # the active Ctx (symbolic mode)


class EngineAbort(BaseException):
    """Steering exception; never an Exception, so code under test cannot swallow it."""


class PathEnd(EngineAbort):
    pass


class Budget(EngineAbort):
    pass


class Nondet(EngineAbort):
    pass


FORKS = {} if os.environ.get('SYMX_FORKS') else None     # development aid: where do paths fork


def note_fork(e):
    import traceback
    fs = [f for f in traceback.extract_stack() if '/sunspec/' in f.filename or '/props/' in f.filename]
    k = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fs[:-4:-1]) + '  ' + str(e)[:70].replace('\n', ' ')
    FORKS[k] = FORKS.get(k, 0) + 1


def item_key(x):
    """equal keys for structurally equal text items"""
    v = getattr(x, 'v', None)
    if hasattr(x, 'kind'):
        return ('n', x.kind, x.width, item_key(v))
    if hasattr(x, 'ie') and hasattr(x, 'getbits'):
        if x.ie is not None:
            return ('I', x.ie.get_id())
        return ('i', x.w, x.sg, x.e.get_id())
    return ('o', id(x))


class Node(object):
    __slots__ = ('kind', 'data', 'value', 'tried', 'more', 'scope', 'alt', 'cap')

    def __init__(self, kind, data=None, value=None, scope=False):
        self.kind = kind      # b f e c a k d
        self.data = data
        self.value = value
        self.scope = scope
        self.tried = None
        self.more = False
        self.alt = None
        self.cap = None


def second_solver(solver, ms):
    """The same query given to cvc5.  Returns (z3 result, model or None)."""
    try:
        import cvc5
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption('tlimit-per', str(ms))
        s.setOption('produce-models', 'true')
        s.setLogic('ALL')
        p = cvc5.InputParser(s)
        f = z3.Solver()
        f.add(*solver.assertions())
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, f.to_smt2(), 'query')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            if c.getCommandName() not in ('check-sat', 'set-logic', 'set-info'):
                c.invoke(s, sm)
        r = s.checkSat()
        if r.isUnsat():
            return z3.unsat, None
        if r.isSat():
            # rebuild the model in z3: the values make the query propositionally trivial
            g = z3.Solver()
            g.set('timeout', ms)
            g.add(*solver.assertions())
            for t in sm.getDeclaredTerms():
                n = str(t)
                if n.startswith('|') and n.endswith('|'):
                    n = n[1:-1]
                v = s.getValue(t)
                if v.isBitVectorValue():
                    g.add(z3.BitVec(n, t.getSort().getBitVectorSize()) == int(v.getBitVectorValue(10)))
                elif v.isBooleanValue():
                    g.add(z3.Bool(n) == v.getBooleanValue())
                elif t.getSort().isInteger() and v.isIntegerValue():
                    g.add(z3.Int(n) == v.getIntegerValue())
            if g.check() == z3.sat:
                return z3.sat, g.model()
    except Exception:
        pass
    return z3.unknown, None


class Ctx(object):
    native = False

    def __init__(self, params=None, deadline=None, query_timeout_ms=20000, max_paths=10**9,
                 enum_cap=400, tick_limit=200000, seed=1):
        self.p = params or {}
        self.solver = z3.Solver()
        self.query_ms = query_timeout_ms
        self.first_ms = min(400, query_timeout_ms)
        self.second = 0
        self.pinned_time = 0
        self.pinned_idle = 0
        self.extra = {}
        self.solver.set('timeout', self.first_ms)
        self.solver.set('random_seed', seed)
        self.nodes = []
        self.deadline = deadline
        self.max_paths = max_paths
        self.enum_cap_default = enum_cap
        self.tick_limit = tick_limit
        # statistics
        self.paths = 0
        self.ended = 0
        self.decisions = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_time = 0.0
        self.max_query = 0.0
        self.checks_struct = 0
        self.checks_solver = 0
        self.checks_unknown = 0
        self.incomplete = {}
        self.concretised = {}
        self.functions = set()
        self.reached = {}
        self.check_labels = {}
        self.candidates = []
        self.witnesses = []
        self.pending_model = None
        self.begin()

    # ------------------------------------------------------------------ path life cycle
    def begin(self):
        self.pos = 0
        self.model = self.pending_model
        self.pending_model = None
        self.inputs = []            # (name, kind, payload)
        self.names = {}
        self.bcache = {}
        self.ecache = {}
        self.keep = []
        self.atoms = []
        self.atom_index = {}
        self.atomcache = {}
        self.placeholders = []
        self.out = None
        self.phkeys = {}
        self.ticks = 0
        self.fresh = 0
        self.log = []
        self.aborting = False
        self.fs = None
        self.path_approx = False
        self.cleanups = []
        self.symkeys = {}           # id -> value used as a dictionary key without being concretised
        self.symdicts = {}          # id -> dictionary holding such keys

    def note_incomplete(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    def backtrack(self):
        """Move to the next unexplored alternative; False when done."""
        s = self.solver
        while self.nodes:
            n = self.nodes[-1]
            if n.scope:
                s.pop()
            if n.kind == 'b' and n.more:
                n.more = False
                n.value = not n.value
                self.pending_model = n.alt
                n.alt = None
                s.push()
                s.add(n.data if n.value else z3.Not(n.data))
                return True
            if n.kind == 'c' and n.value + 1 < n.data:
                n.value += 1
                s.push()
                return True
            if n.kind == 'e' and n.more:
                n.tried.append(n.value)
                if len(n.tried) >= n.cap:
                    self.note_incomplete('value enumeration capped at %d' % n.cap)
                else:
                    s.push()
                    for t in n.tried:
                        s.add(n.data != t)
                    r = self._check()
                    if r == z3.sat:
                        m = self.last_model
                        v = self._num(m, n.data)
                        s.pop()
                        s.push()
                        n.value = v
                        self.pending_model = m
                        s.add(n.data == v)
                        return True
                    s.pop()
                    if r == z3.unknown:
                        self.note_incomplete('solver unknown in value enumeration')
            self.nodes.pop()
        return False

    # ------------------------------------------------------------------ solver helpers
    def _check(self):
        if self.deadline is not None and time.time() > self.deadline:
            self.note_incomplete('time budget')
            raise Budget()
        t = time.time()
        self.last_model = None
        r = self.solver.check()
        if r == z3.unknown:
            # second opinion: corner values, cvc5 (preprocesses xor systems), then z3 with the full time
            first = self.pinned_idle < 2
            r = self._pinned() if first else z3.unknown
            if r == z3.unknown:
                self.pinned_idle += 1
                r, self.last_model = second_solver(self.solver, self.query_ms)
            self.second += 1
            if r == z3.unknown:
                self.solver.set('timeout', self.query_ms)
                r = self.solver.check()
                self.solver.set('timeout', self.first_ms)
            if r == z3.unknown and not first:
                r = self._pinned()
        if r == z3.sat and self.last_model is None:
            self.last_model = self.solver.model()
        dt = time.time() - t
        self.solver_time += dt
        if dt > self.max_query:
            self.max_query = dt
        self.queries += 1
        if r == z3.sat:
            self.sat += 1
        elif r == z3.unsat:
            self.unsat += 1
        else:
            self.unknown += 1
        return r

    def _pinned(self, want=0):
        """A query the solvers leave open: look for a model with inputs fixed at
        their extreme values.  Finds counterexamples, never proves anything."""
        found = []
        if self.pinned_time > 20:
            return found if want else z3.unknown
        t0 = time.time()
        exprs = []
        for name, kind, payload in self.inputs:
            if kind == 'int' and not isinstance(payload, int):
                exprs.append(payload[0])
            elif kind == 'bytes':
                exprs.extend(payload)
        todo = []
        m = self.model
        if m is not None and exprs:
            rest = [(e, m.eval(e, model_completion=True)) for e in exprs]
            todo.append(rest)
            for i, e in enumerate(exprs[:12]):
                v = rest[i][1].as_long()
                for c in CORNERS[::-1] + [v ^ 1, v + 1, v - 1, v | 1, v ^ 16]:
                    todo.append(rest[:i] + [(e, c)] + rest[i + 1:])
        if exprs:
            todo[len(CORNERS):len(CORNERS)] = [[(e, c) for e in exprs] for c in CORNERS]
        facts = self.solver.assertions()
        try:
            for pins in todo:
                if time.time() - t0 > 3:
                    break
                pins = [(e, c if not isinstance(c, int) else z3.BitVecVal(c, e.size()) if z3.is_bv(e) else z3.IntVal(c)) for e, c in pins]
                s = z3.Solver()
                s.set('timeout', 500)
                ok = True
                for f in facts:
                    f = z3.simplify(z3.substitute(f, *pins))
                    if z3.is_false(f):
                        ok = False
                        break
                    s.add(f)
                if ok:
                    for e, c in pins:
                        s.add(e == c)
                    if s.check() == z3.sat:
                        if want:
                            found.append(s.model())
                            if len(found) >= want:
                                break
                            continue
                        self.last_model = s.model()
                        return z3.sat
        finally:
            self.pinned_time += time.time() - t0
        return found if want else z3.unknown

    def _num(self, m, e):
        v = m.eval(e, model_completion=True)
        return v.as_long()

    def need_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.last_model
            elif r == z3.unsat:
                raise PathEnd()
            else:
                self.note_incomplete('solver unknown on path condition')
                raise PathEnd()
        return self.model

    def _holds(self, e):
        return z3.is_true(self.need_model().eval(e, model_completion=True))

    def _replay(self, kind):
        n = self.nodes[self.pos]
        if n.kind != kind:
            raise Nondet('expected %s got %s at %d' % (n.kind, kind, self.pos))
        self.pos += 1
        return n

    def _push(self, n):
        self.nodes.append(n)
        self.pos += 1

    # ------------------------------------------------------------------ decisions
    def branch(self, e):
        """Decide a z3 Bool on this path."""
        if self.aborting:
            raise PathEnd()
        k = e.get_id()
        v = self.bcache.get(k)
        if v is not None:
            return v
        self.keep.append(e)
        if self.pos < len(self.nodes):
            n = self.nodes[self.pos]
            if n.kind not in 'bf' or n.data.get_id() != k:
                raise Nondet('branch mismatch %s :: %s' % (n.data.sexpr()[-600:], e.sexpr()[-600:]))
            self.pos += 1
            v = n.value
            self.bcache[k] = v
            return v
        self.decisions += 1
        v = self._holds(e)
        s = self.solver
        s.push()
        s.add(z3.Not(e) if v else e)
        r = self._check()
        alt = self.last_model if r == z3.sat else None
        s.pop()
        if r == z3.sat:
            n = Node('b', e, v, True)
            n.more = True
            n.alt = alt
            if FORKS is not None:
                note_fork(e)
            s.push()
            s.add(e if v else z3.Not(e))
            self._push(n)
        else:
            if r == z3.unknown:
                self.note_incomplete('solver unknown on branch')
            self._push(Node('f', e, v))
        self.bcache[k] = v
        return v

    def enum(self, e, cap=None, why='value enumeration'):
        """Concretise a z3 BV/Int term by complete case split over its feasible values."""
        if self.aborting:
            raise PathEnd()
        k = e.get_id()
        v = self.ecache.get(k)
        if v is not None:
            return v
        self.keep.append(e)
        if self.pos < len(self.nodes):
            n = self._replay('e')
            if n.data.get_id() != k:
                raise Nondet('enum mismatch')
            self.ecache[k] = n.value
            return n.value
        self.decisions += 1
        v = self._num(self.need_model(), e)
        n = Node('e', e, v, True)
        n.tried = []
        n.more = True
        n.cap = cap or self.enum_cap_default
        if FORKS is not None:
            note_fork(e)
        self.solver.push()
        self.solver.add(e == v)
        self._push(n)
        self.ecache[k] = v
        return v

    def choose(self, k):
        """Structural alternative 0..k-1 (explored exhaustively)."""
        if self.aborting:
            raise PathEnd()
        if k <= 1:
            return 0
        if self.pos < len(self.nodes):
            return self._replay('c').value
        self.decisions += 1
        self.solver.push()
        self._push(Node('c', k, 0, True))
        return 0

    def add(self, e, definition=False):
        """Assert e on this path.  definition: e only constrains fresh variables."""
        if self.aborting:
            raise PathEnd()
        if self.pos < len(self.nodes):
            self._replay('a')
            return
        if not definition and self.model is not None and not self._holds(e):
            self.model = None
        elif definition:
            self.model = None
        self.solver.add(e)
        self._push(Node('a', None))
        if not definition and self.model is None:
            self.need_model()

    def check_expr(self, e, label):
        """Decide assertion e (z3 Bool) for all values on this path."""
        if self.aborting:
            raise PathEnd()
        if self.pos < len(self.nodes):
            if self._replay('k').data:
                self._replay('a')
            return
        self.checks_solver += 1
        s = self.solver
        s.push()
        s.add(z3.Not(e))
        try:
            r = self._check()
            if r == z3.sat:
                self.candidate(label, self.last_model)
                if self.path_approx and self.extra.get(label, 0) < 3:
                    # rounding is over-approximated: offer replay some more values
                    self.extra[label] = self.extra.get(label, 0) + 1
                    for m in self._pinned(6):
                        self.candidate(label, m)
        finally:
            s.pop()
        if r == z3.unknown:
            self.checks_unknown += 1
            self.note_incomplete('solver unknown on assertion: ' + label)
        self._push(Node('k', r == z3.sat))
        if r == z3.sat:
            # continue only with the values for which it holds
            self.add(e)

    def candidate(self, label, model):
        inp = self.extract(model)
        self.candidates.append({'label': label, 'inputs': inp, 'approx': self.path_approx})
        n = sum(1 for c in self.candidates)
        if n >= 40:
            raise Budget()

    def fail(self, label):
        """An assertion that is concretely false on this path."""
        if self.aborting:
            raise PathEnd()
        if self.pos < len(self.nodes):
            self._replay('k')
            raise PathEnd()
        self.candidate(label, self.need_model())
        self._push(Node('k'))
        raise PathEnd()

    def extract(self, m):
        out = []
        for name, kind, payload in self.inputs:
            if kind == 'int':
                v = payload
                if not isinstance(v, int):
                    e, sg = payload
                    x = m.eval(e, model_completion=True)
                    if z3.is_bv(x):
                        v = x.as_signed_long() if sg else x.as_long()
                    else:
                        v = x.as_long()
                out.append([name, v])
            elif kind == 'bool':
                out.append([name, z3.is_true(m.eval(payload, model_completion=True))])
            elif kind == 'bytes':
                out.append([name, [m.eval(x, model_completion=True).as_long() for x in payload]])
            elif kind == 'choice':
                out.append([name, payload])
        return out

    # ------------------------------------------------------------------ bookkeeping
    def tick(self):
        self.ticks += 1
        if self.ticks > self.tick_limit:
            self.fail('does not terminate within %d loop iterations' % self.tick_limit)
        if (self.ticks & 1023) == 0 and self.deadline is not None and time.time() > self.deadline:
            self.note_incomplete('time budget')
            raise Budget()

    def fresh_name(self, base):
        self.fresh += 1
        return '%s!%d' % (base, self.fresh)

    def uname(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    # bit atoms -----------------------------------------------------------
    def atom(self, base, pos):
        k = (base.get_id(), pos)
        i = self.atom_index.get(k)
        if i is None:
            i = len(self.atoms) + 1
            self.atoms.append((base, pos))
            self.atom_index[k] = i
        return 1 << i

    def placeholder(self, item):
        k = item_key(item)
        i = self.phkeys.get(k)
        if i is None:
            i = self.phkeys[k] = len(self.placeholders)
            self.placeholders.append(item)
        return chr(0xF0000 + i)
