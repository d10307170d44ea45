"""Symbolic execution engine: path exploration over real Python code with z3.

The code under test runs natively in CPython; inputs are proxy objects (see
values.py) that build z3 terms.  Whenever the code needs a concrete truth value
(or a concrete index/hash) of a symbolic term, the engine forks: the solver
decides which outcomes are feasible under the path condition, and all feasible
outcomes are explored by re-executing the harness (stateless depth first
search).  ``check()`` asks the solver for an input on the current path that
violates the assertion.
"""

import signal
import time
import traceback
import z3


class EngineStop(BaseException):
    """Base class of control flow exceptions (never caught by code under test)."""


class PathEnd(EngineStop):
    """This path ends here (infeasible assumption, or cut)."""


class Unsupported(EngineStop):
    """The engine can't follow the code here; the path is inconclusive."""


class BudgetEnd(EngineStop):
    """The budget of this harness is used up."""


class PathTimeout(EngineStop):
    """One path takes too long (does the code under test terminate?)."""


class _Entry:
    __slots__ = ('cond', 'taken', 'open', 'value', 'forced')

    def __init__(self, cond, taken, open_, value, forced):
        self.cond = cond
        self.taken = taken
        self.open = open_
        self.value = value
        self.forced = forced


CURRENT = None      # the engine that is running


class Engine:
    def __init__(self, max_paths=100000, max_time=600, query_timeout=30000, seed=1):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout)
        self.solver.set('random_seed', seed)
        self.max_paths = max_paths
        self.max_time = max_time
        self.trail = []
        self.idx = 0
        self.model = None
        self.inputs = {}        # name -> (sort info, z3 expr)
        self.paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.forks = 0
        self.proved = 0         # assertions discharged by the solver (unsat)
        self.trivial = 0        # assertions that were concretely true on the path
        self.unknown = 0
        self.inconclusive = []  # (reason) of paths the engine could not follow
        self.reached = {}
        self.candidates = []    # (label, inputs)
        self.witnesses = []     # inputs, one per path (bounded)
        self.exhausted = False
        self.cut = 0            # paths cut by an explicit bound
        self._decided = {}
        self._pinned = {}
        self._keep = []
        self.observed = []
        self.known_hits = []    # (known id, label, inputs)
        self.path_time = 60
        self.max_candidates = 24

    # -- solver ----------------------------------------------------------
    def _solve(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.solver_time += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
        return r

    def _get_model(self):
        if self.model is None:
            r = self._solve()
            if r == z3.unsat:
                raise PathEnd("infeasible")
            if r == z3.unknown:
                raise Unsupported("solver answered unknown")
            self.model = self.solver.model()
        return self.model

    @property
    def replaying(self):
        return self.idx < len(self.trail)

    def assume(self, cond):
        """Add a constraint (z3 Bool or bool) to the path condition."""
        if cond is True:
            return
        if cond is False:
            raise PathEnd("assumption is false")
        if self.replaying:
            return
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, True)):
            self.model = None
            self._get_model()

    def fork(self, cond):
        """Return the truth value of the z3 Bool on this path."""
        v = _const(cond)
        if v is not None:
            return v
        key = cond.get_id()
        if key in self._decided:
            return self._decided[key]
        return self._fork(cond)

    def _fork(self, cond, value=None):
        if self.replaying:
            e = self.trail[self.idx]
            if not e.cond.eq(cond):
                raise RuntimeError("engine: execution is not deterministic: %s / %s" % (e.cond, cond))
            self.idx += 1
            self._decide(cond, e.taken)
            return e.taken
        m = self._get_model()
        b = z3.is_true(m.eval(cond, True))
        other = z3.Not(cond) if b else cond
        self.solver.push()
        self.solver.add(other)
        r = self._solve()
        self.solver.pop()
        open_ = r != z3.unsat
        # open a scope for this decision, so that we can get back here
        self.solver.push()
        if open_:
            self.forks += 1
            self.solver.add(cond if b else z3.Not(cond))
        self.trail.append(_Entry(cond, b, open_, value, not open_))
        self.idx += 1
        self._decide(cond, b)
        return b

    def _decide(self, cond, b):
        self._decided[cond.get_id()] = b
        n = z3.Not(cond)
        self._decided[n.get_id()] = not b
        self._keep.append((cond, n))

    def concretize(self, expr, limit=2000):
        """Return a concrete Python value for the z3 Int/Real; forks over all
        feasible values."""
        v = _const(expr)
        if v is not None:
            return v
        key = expr.get_id()
        if key in self._pinned:
            return self._pinned[key]
        for _ in range(limit):
            if self.replaying:
                v = self.trail[self.idx].value
                if v is None:
                    raise RuntimeError("engine: execution is not deterministic (value)")
                v = v[0]
            else:
                v = _const(self._get_model().eval(expr, True))
                if v is None:
                    raise Unsupported("can't get a value for %s" % expr)
            if self._fork(expr == _lift(v, expr), (v,)):
                self._pinned[key] = v
                self._keep.append(expr)
                return v
        raise Unsupported("too many values to concretize")

    # -- checks -----------------------------------------------------------
    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def check(self, cond, label):
        """Check that cond (z3 Bool or bool) holds for all values on this path."""
        if self.replaying:
            return      # was checked with the same path condition
        self.reach(label)
        if cond is True:
            self.trivial += 1
            return
        if cond is False:
            self.candidates.append((label, self.model_inputs(self._get_model())))
            raise PathEnd("violation")
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self._solve()
        if r == z3.sat:
            m = self.solver.model()
            self.solver.pop()
            self.candidates.append((label, self.model_inputs(m)))
            self.assume(cond)
            return
        self.solver.pop()
        if r == z3.unsat:
            self.proved += 1
            self.solver.add(cond)   # proved facts may help later queries
        else:
            self.inconclusive.append("%s: solver answered unknown" % label)

    def known_query(self, cond, region, label, known):
        """Find out whether a known finding (a violation in region) is there."""
        if self.replaying:
            return
        cond, region = (z3.BoolVal(c) if isinstance(c, bool) else c for c in (cond, region))
        self.solver.push()
        self.solver.add(z3.Not(cond), region)
        if self._solve() == z3.sat:
            self.known_hits.append((known, label, self.model_inputs(self.solver.model())))
        self.solver.pop()

    def model_inputs(self, model):
        return {name: info(model) for name, info in self.inputs.items()}

    def _degraded(self, reason):
        """This path can't be followed: have one input of it replayed concretely."""
        self.inconclusive.append(reason)
        self._candidate('degraded path: ' + reason)

    def _exception(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/vs/' not in f.filename]
        loc = ' at %s:%d' % (where[-1].filename, where[-1].lineno) if where else ''
        self._candidate('exception %s: %s%s' % (type(e).__name__, str(e)[:200], loc))

    def _candidate(self, label):
        try:
            self.candidates.append((label, self.model_inputs(self._get_model())))
        except EngineStop:
            pass

    # -- exploration -------------------------------------------------------
    def _backtrack(self):
        """Flip the last open decision. Return False if there is none."""
        while self.trail:
            e = self.trail.pop()
            self.solver.pop()
            if e.open:
                self.solver.push()
                e.taken = not e.taken
                e.open = False
                self.solver.add(e.cond if e.taken else z3.Not(e.cond))
                self.trail.append(e)
                return True
        return False

    def run(self, harness, want_witness=16):
        """Explore all paths of the harness(engine)."""
        global CURRENT
        start = time.monotonic()
        CURRENT = self
        def on_alarm(*args):
            raise PathTimeout
        signal.signal(signal.SIGALRM, on_alarm)
        self.solver.push()
        try:
            while True:
                self.idx = 0
                self.model = None
                self._decided = {}
                self._pinned = {}
                self._keep = []
                self.observed = []
                self.inputs = {}
                self.paths += 1
                ok = False
                signal.setitimer(signal.ITIMER_REAL, self.path_time)
                try:
                    try:
                        harness(self)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                    ok = True
                except PathEnd:
                    pass
                except Unsupported as e:
                    self._degraded('engine: %s' % e)
                except PathTimeout:
                    self._degraded('no result in %s s' % self.path_time)
                except RuntimeError as e:
                    if str(e).startswith('engine:'):
                        raise
                    self._exception(e)
                except Exception as e:
                    self._exception(e)
                if ok and len(self.witnesses) < want_witness * 4:
                    # spread the samples over the exploration
                    if self.paths & (self.paths - 1) == 0 or self.paths % 37 == 0:
                        try:
                            m = self._get_model()
                            self.witnesses.append((self.model_inputs(m),
                                [(k, v(m)) for k, v in self.observed]))
                        except EngineStop:
                            pass
                if not self._backtrack():
                    self.exhausted = True
                    break
                if len(self.candidates) >= self.max_candidates:
                    break
                if self.paths >= self.max_paths or time.monotonic() - start > self.max_time:
                    break
        finally:
            CURRENT = None
        self.wall = time.monotonic() - start
        return self


def _lift(v, expr):
    if z3.is_int(expr):
        return z3.IntVal(v)
    return z3.RealVal(str(v))


_kind, _decl, _decl_kind = z3.Z3_get_ast_kind, z3.Z3_get_app_decl, z3.Z3_get_decl_kind
_NUMERAL, _APP, _TRUE, _FALSE = z3.Z3_NUMERAL_AST, z3.Z3_APP_AST, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE


def _const(expr):
    """Return Python int/Fraction/bool if the z3 expr is a numeral (or true or false), else None."""
    ref, a = expr.ctx.ref(), expr.as_ast()
    kind = _kind(ref, a)
    if kind == _NUMERAL:
        if z3.is_int_value(expr):
            return expr.as_long()
        if z3.is_rational_value(expr):
            return expr.as_fraction()
    elif kind == _APP:
        k = _decl_kind(ref, _decl(ref, a))
        if k == _TRUE:
            return True
        if k == _FALSE:
            return False
    return None


def engine():
    return CURRENT
