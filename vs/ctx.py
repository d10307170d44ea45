"""The interface between harnesses and the two ways to run them.

A harness is an ordinary function ``harness(ctx)``. Run symbolically, ``ctx``
hands out symbolic values and its checks are decided by the solver for all
values on the current path. Run concretely (to replay a counterexample, or to
validate the encoding on a witness of a path) it hands out recorded values and
the code under test runs uninstrumented.
"""

import fractions

Fraction = fractions.Fraction


SYMBOLIC = False     # set by check.py when running symbolically


class Violation(Exception):
    pass


class Skip(Exception):
    """Concrete replay: an assumption does not hold."""


def enc(v):
    if isinstance(v, Fraction):
        return {'$f': '%d/%d' % (v.numerator, v.denominator)}
    if isinstance(v, float):
        return {'$d': repr(v)}
    return v


def dec(v):
    if isinstance(v, dict):
        return Fraction(v['$f']) if '$f' in v else float(v['$d'])
    return v


def plain(v):
    """A JSON comparable representation of an observed (concrete) value."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float, Fraction)):
        return str(Fraction(v))
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[plain(a), plain(b)] for a, b in v.items()]
    return repr(v)


class BaseCtx:
    def __init__(self, params=None):
        self.params = params or {}

    def ints(self, prefix, n, lo, hi):
        return [self.int('%s%d' % (prefix, i), lo, hi) for i in range(n)]

    def pick(self, name, options):
        """Pick one of the options (each path has one)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.int(name, 0, len(options) - 1))]

    def size(self, name, lo, hi):
        """A concrete integer (each path has one)."""
        return lo if lo == hi else int(self.int(name, lo, hi))

    def flag(self, name):
        """A concrete boolean (each path has one)."""
        return bool(self.bool(name))


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs, params=None):
        super().__init__(params)
        self.inputs = inputs
        self.failures = []
        self.observed = []
        self.used = set()
        self.reached = {}

    def _get(self, name, default):
        self.used.add(name)
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def real(self, name, lo, hi, den, kind='fraction'):
        v = self._get(name, Fraction(lo))
        return float(v) if kind == 'float' else Fraction(v)

    def bool(self, name):
        return self._get(name, False)

    def text(self, name, alphabet, length):
        return self._get(name, alphabet[0] * length)

    def assume(self, cond):
        if not cond:
            raise Skip

    def check(self, cond, label, known=None):
        self.reached[label] = self.reached.get(label, 0) + 1
        if not cond:
            if known and known[1]:
                self.failures.append((label, known[0]))
            else:
                self.failures.append((label, None))
            raise Violation(label)

    def observe(self, name, value):
        self.observed.append((name, plain(value)))

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return bool(not a or b)

    def ite(self, c, a, b):
        return a if c else b

    def at(self, table, index):
        return table[index]

    def isin(self, x, c):
        return x in c

    def join(self, items):
        return ''.join(items)

    def call(self, f, *a, **k):
        return f(*a, **k)

    def concrete(self, x):
        return x

    def pytype(self, x):
        return type(x)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine, params=None, known=()):
        super().__init__(params)
        self.engine = engine
        self.known_ids = known
        import z3
        from . import values, ops
        self.z3 = z3
        self.V = values
        self.ops = ops

    def int(self, name, lo, hi):
        z3 = self.z3
        e = z3.Int(name)
        eng = self.engine
        if name not in eng.inputs:
            eng.assume(z3.And(e >= lo, e <= hi))
            eng.inputs[name] = lambda m: m.eval(e, True).as_long()
        if lo == hi:
            return lo
        return self.V.SymInt(e)

    def real(self, name, lo, hi, den, kind='fraction'):
        """A rational lo..hi with denominator den (den: power of two if float)."""
        z3 = self.z3
        e = z3.Int(name)
        eng = self.engine
        if name not in eng.inputs:
            eng.assume(z3.And(e >= int(Fraction(lo) * den), e <= int(Fraction(hi) * den)))
            def value(m):
                v = Fraction(m.eval(e, True).as_long(), den)
                return float(v) if kind == 'float' else v
            eng.inputs[name] = value
        return self.V.SymReal(kind, n=e, den=den)

    def bool(self, name):
        z3 = self.z3
        e = z3.Bool(name)
        self.engine.inputs[name] = lambda m: z3.is_true(m.eval(e, True))
        return self.V.SymBool(e)

    def text(self, name, alphabet, length):
        """A string of the length with every character any of the alphabet."""
        z3 = self.z3
        eng = self.engine
        alphabet = tuple(sorted(set(alphabet)))
        es = [z3.Int('%s.%d' % (name, i)) for i in range(length)]
        if name not in eng.inputs:
            for e in es:
                # contiguous ranges
                eng.assume(z3.Or(*[z3.And(e >= a, e <= b) for a, b in _ranges(alphabet)]))
            eng.inputs[name] = lambda m: ''.join(chr(m.eval(e, True).as_long()) for e in es)
        return self.V.mk_str(self.V.SymChar(e, alphabet) for e in es)

    def _cond(self, cond):
        if isinstance(cond, self.V.SymBool):
            return cond.e
        if isinstance(cond, self.V.Sym):
            return bool(cond)
        return bool(cond)

    def assume(self, cond):
        self.engine.assume(self._cond(cond))

    def check(self, cond, label, known=None):
        if known and known[0] in self.known_ids:
            self.engine.known_query(self._cond(cond), self._cond(known[1]), label, known[0])
            cond = self.Or(cond, known[1])
        self.engine.check(self._cond(cond), label)

    def observe(self, name, value):
        self.engine.observed.append((name, lambda m: plain(self._eval(m, value))))

    def _eval(self, m, v):
        V = self.V
        core = __import__('vs.core', fromlist=['core'])
        if isinstance(v, V.SymStr):
            return ''.join(chr(m.eval(c.e, True).as_long()) if isinstance(c, V.SymChar) else c for c in v.chars)
        if isinstance(v, V.Sym):
            return core._const(self.z3.simplify(m.eval(v.e, True)))
        if isinstance(v, (list, tuple)):
            return [self._eval(m, x) for x in v]
        if isinstance(v, dict):
            return {a: self._eval(m, b) for a, b in v.items()}
        return v

    def And(self, *a):
        return self.V.and_(*a)

    def Or(self, *a):
        return self.V.or_(*a)

    def Not(self, a):
        return self.V.not_(a)

    def Implies(self, a, b):
        return self.V.or_(self.V.not_(a), b)

    def ite(self, c, a, b):
        return self.V.ite(c, a, b)

    def at(self, table, index):
        return self.ops._vs_getitem(table, index)

    def isin(self, x, c):
        return self.ops._vs_in(x, c)

    def join(self, items):
        return self.ops._vs_call(''.join, items)

    def call(self, f, *a, **k):
        """Call a builtin with possibly symbolic arguments."""
        return self.ops._vs_call(f, *a, **k)

    def concrete(self, x):
        return self.V.concrete(x)

    def pytype(self, x):
        return self.ops._type(x)


def _ranges(alphabet):
    r = []
    for c in sorted(map(ord, alphabet)):
        if r and r[-1][1] == c - 1:
            r[-1][1] = c
        else:
            r.append([c, c])
    return r


# ---------------------------------------------------------------- registry
HARNESSES = {}      # name -> Harness


class Harness:
    def __init__(self, prop, func, cases, thorough, bounds, opts):
        self.prop = prop
        self.func = func
        self.name = func.__name__
        self.cases = cases
        self.thorough = thorough
        self.bounds = bounds
        self.opts = opts
        self.doc = ' '.join((func.__doc__ or '').split())


def harness(prop, cases=None, thorough=None, bounds='', **opts):
    """Register a harness. ``cases``: list of parameter dicts (one job each);
    ``thorough``: the same for the thorough tier (default: cases)."""
    def deco(func):
        h = Harness(prop, func, cases or [{}], thorough or cases or [{}], bounds, opts)
        assert h.name not in HARNESSES, h.name
        HARNESSES[h.name] = h
        return func
    return deco
