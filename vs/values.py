"""Symbolic proxy values: numbers, booleans and strings."""

import fractions
import math
import z3

from . import core
from .core import Unsupported

Fraction = fractions.Fraction


class Sym:
    """Base class of all symbolic values."""
    __slots__ = ()


# ---------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ('e',)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.CURRENT.fork(self.e)

    def _int(self):
        return mk_int(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return mk_bool(self.e == other.e)
        if isinstance(other, bool):
            return mk_bool(self.e if other else z3.Not(self.e))
        return self._int() == other

    def __ne__(self, other):
        return not_(self == other)

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __and__(self, other):
        if isinstance(other, (bool, SymBool)):
            return and_(self, other)
        return bool(self) & other
    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, (bool, SymBool)):
            return or_(self, other)
        return bool(self) | other
    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, (bool, SymBool)):
            return mk_bool(z3.Xor(self.e, bool_expr(other)))
        return bool(self) ^ other
    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))
    __int__ = __index__


def _delegate(name):
    def f(self, *args):
        return getattr(self._int(), name)(*args)
    f.__name__ = name
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod '
           'lt le gt ge neg pos abs divmod rdivmod pow rpow lshift rlshift rshift').split():
    setattr(SymBool, '__%s__' % _n, _delegate('__%s__' % _n))


def mk_bool(e):
    if isinstance(e, bool):
        return e
    v = core._const(e)
    return SymBool(e) if v is None else v


def bool_expr(b):
    """Return a z3 Bool for a bool or SymBool (or anything with a truth value)."""
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, z3.BoolRef):
        return b
    return z3.BoolVal(bool(b))


def and_(*args):
    r = []
    for a in args:
        if isinstance(a, SymBool):
            r.append(a.e)
        elif not a:
            return False
    return mk_bool(z3.And(*r) if len(r) > 1 else r[0]) if r else True


def or_(*args):
    r = []
    for a in args:
        if isinstance(a, SymBool):
            r.append(a.e)
        elif a:
            return True
    return mk_bool(z3.Or(*r) if len(r) > 1 else r[0]) if r else False


def not_(a):
    if isinstance(a, SymBool):
        return mk_bool(z3.Not(a.e))
    return not a


def ite(c, a, b):
    """If-then-else on numbers (or bools) without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mk_bool(z3.If(c.e, bool_expr(a), bool_expr(b)))
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if type(a) is int and type(b) is int and a == b:
        return a
    if is_intlike(a) and is_intlike(b):
        return mk_int(z3.If(c.e, int_expr(a), int_expr(b)))
    if is_num(a) and is_num(b):
        kind = _join_kind(a, b)
        D = _join_den(a, b)
        if D is not None:
            return mk_rat(z3.If(c.e, num_at(a, D), num_at(b, D)), D, kind)
        return mk_real(z3.If(c.e, real_expr(a), real_expr(b)), kind)
    if is_str(a) and is_str(b) and len(a) == len(b):
        return mk_str(_c_ite(c.e, x, y) for x, y in zip(chars_of(a), chars_of(b)))
    raise Unsupported('ite on %s/%s' % (type(a), type(b)))


# ---------------------------------------------------------------- numbers
_simplify = z3.simplify


def mk_int(e):
    e = _simplify(e)
    v = core._const(e)
    return SymInt(e) if v is None else v


def _number(v, kind):
    """A plain number of the kind with the rational value v."""
    v = Fraction(v)
    if kind == 'float':
        f = float(v)
        if Fraction(f) != v:
            raise Unsupported('inexact float constant')
        return f
    return v


def mk_rat(n, den, kind):
    """The rational n/den (n a z3 Int, den a positive int)."""
    n = _simplify(n)
    v = core._const(n)
    if v is None:
        return SymReal(kind, n=n, den=den)
    return _number(Fraction(v, den), kind)


def mk_real(e, kind, den=None):
    """A rational from a z3 Real (denominator unknown)."""
    e = _simplify(e)
    v = core._const(e)
    if v is None:
        return SymReal(kind, e=e)
    return _number(v, kind)


def num_at(x, D):
    """x*D as z3 Int, x has a denominator that divides D."""
    if isinstance(x, SymReal):
        f = D // x.den
        return x.n * f if f != 1 else x.n
    if isinstance(x, (SymInt, SymBool)):
        return int_expr(x) * D if D != 1 else int_expr(x)
    v = Fraction(x) * D
    return z3.IntVal(v.numerator)


def is_intlike(x):
    return isinstance(x, (int, SymInt, SymBool))


def is_num(x):
    return isinstance(x, (int, float, Fraction, SymInt, SymReal, SymBool))


def int_expr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def real_expr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, (SymInt, SymBool)):
        return z3.ToReal(int_expr(x))
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported('nan/inf in symbolic arithmetic')
        x = Fraction(x)
    return z3.RealVal(str(Fraction(x)))


def _kind(x):
    if isinstance(x, SymReal):
        return x.kind
    if isinstance(x, float):
        return 'float'
    if isinstance(x, Fraction):
        return 'fraction'
    return 'int'


def _join_kind(a, b):
    k = {_kind(a), _kind(b)}
    return 'float' if 'float' in k else 'fraction' if 'fraction' in k else 'int'


def _den(x):
    """A number D so that x*D is an integer (None: unknown)."""
    if isinstance(x, SymReal):
        return x.den
    if isinstance(x, (float, Fraction)):
        return Fraction(x).denominator
    return 1


def _join_den(a, b):
    a, b = _den(a), _den(b)
    return None if a is None or b is None else math.lcm(a, b)


def _mul_den(a, b):
    a, b = _den(a), _den(b)
    return None if a is None or b is None else a * b


def _cmp(op):
    def f(self, other):
        if not is_num(other):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        if is_intlike(self) and is_intlike(other):
            a, b = int_expr(self), int_expr(other)
        elif isinstance(other, float) and (math.isnan(other) or math.isinf(other)):
            if math.isnan(other):
                return op == 'ne'
            pos = other > 0
            return {'eq': False, 'ne': True, 'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos}[op]
        else:
            D = _join_den(self, other)
            if D is not None:
                a, b = num_at(self, D), num_at(other, D)
            else:
                a, b = real_expr(self), real_expr(other)
        e = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b,
             'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[op]()
        return mk_bool(_simplify(e))
    return f


def _floor_div(a, b):
    """Python floor division of the numbers a and b."""
    if is_intlike(b) or isinstance(b, (SymReal, Fraction, float)):
        if not isinstance(b, Sym):
            if b == 0:
                raise ZeroDivisionError
            positive = b > 0
        else:
            if b == 0:
                raise ZeroDivisionError
            positive = bool(b > 0)
    if is_intlike(a) and is_intlike(b):
        ea, eb = int_expr(a), int_expr(b)
        if positive:
            return mk_int(ea / eb)
        return mk_int((-ea) / (-eb))
    D = _join_den(a, b)
    if D is not None:
        na, nb = num_at(a, D), num_at(b, D)
        q = na / nb if positive else (-na) / (-nb)
    else:
        q = z3.ToInt(real_expr(a) / real_expr(b))
    if _join_kind(a, b) == 'float':
        return mk_rat(q, 1, 'float')
    return mk_int(q)


def _mod(a, b):
    q = _floor_div(a, b)
    return a - b * q


def _divide(a, b, kind):
    if not isinstance(b, Sym) and _den(a) is not None:
        f = Fraction(b)
        n = num_at(a, _den(a)) * (f.denominator if f > 0 else -f.denominator)
        return mk_rat(n, _den(a) * abs(f.numerator), kind)
    return mk_real(real_expr(a) / real_expr(b), kind)


class _Num(Sym):
    __slots__ = ()

    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')

    def __hash__(self):
        return hash(self._value())

    def __bool__(self):
        return bool(self != 0)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def _arith(self, other, op, swap=False):
        if not is_num(other):
            return NotImplemented
        a, b = (other, self) if swap else (self, other)
        if is_intlike(a) and is_intlike(b):
            a, b = int_expr(a), int_expr(b)
            return mk_int(a + b if op == '+' else a - b if op == '-' else a * b)
        kind = _join_kind(a, b)
        if op == '*':
            den = _mul_den(a, b)
            if den is not None:
                return mk_rat(num_at(a, _den(a)) * num_at(b, _den(b)), den, kind)
        else:
            den = _join_den(a, b)
            if den is not None:
                a, b = num_at(a, den), num_at(b, den)
                return mk_rat(a + b if op == '+' else a - b, den, kind)
        a, b = real_expr(a), real_expr(b)
        return mk_real(a + b if op == '+' else a - b if op == '-' else a * b, kind)

    def __add__(self, other):
        return self._arith(other, '+')

    def __radd__(self, other):
        return self._arith(other, '+', True)

    def __sub__(self, other):
        return self._arith(other, '-')

    def __rsub__(self, other):
        return self._arith(other, '-', True)

    def __mul__(self, other):
        if isinstance(other, (str, list, tuple, SymStr)):
            return other * self._value()
        return self._arith(other, '*')

    def __rmul__(self, other):
        if isinstance(other, (str, list, tuple, SymStr)):
            return other * self._value()
        return self._arith(other, '*', True)

    def _div(self, a, b):
        if not is_num(a) or not is_num(b):
            return NotImplemented
        if b == 0:
            raise ZeroDivisionError
        kind = _join_kind(a, b)
        if kind == 'int':
            kind = 'float'
        return _divide(a, b, kind)

    def __truediv__(self, other):
        return self._div(self, other)

    def __rtruediv__(self, other):
        return self._div(other, self)

    def __floordiv__(self, other):
        return _floor_div(self, other) if is_num(other) else NotImplemented

    def __rfloordiv__(self, other):
        return _floor_div(other, self) if is_num(other) else NotImplemented

    def __mod__(self, other):
        return _mod(self, other) if is_num(other) else NotImplemented

    def __rmod__(self, other):
        if isinstance(other, str):
            return other % self._value()
        return _mod(other, self) if is_num(other) else NotImplemented

    def __divmod__(self, other):
        if not is_num(other):
            return NotImplemented
        q = _floor_div(self, other)
        return q, self - other * q

    def __rdivmod__(self, other):
        if not is_num(other):
            return NotImplemented
        q = _floor_div(other, self)
        return q, other - self * q

    def __pow__(self, other):
        if isinstance(other, Sym):
            other = other._value()
        if isinstance(other, int) and other >= 0:
            r = 1
            for _ in range(other):
                r = r * self
            return r
        if isinstance(other, int):
            return 1 / (self ** -other)
        return self._value() ** other

    def __rpow__(self, other):
        return other ** self._value()

    def __str__(self):
        return str(self._value())

    def __format__(self, spec):
        return format(self._value(), spec)

    def __repr__(self):
        return repr(self._value())

    def __round__(self, n=None):
        if n is not None:
            return round(self._value(), n)
        D = _den(self)
        if D is not None:
            n = num_at(self, D)
            f = n / D
            d2 = 2 * (n - f * D)
            up = z3.Or(d2 > D, z3.And(d2 == D, f % 2 == 1))
            return mk_int(z3.If(up, f + 1, f))
        r = real_expr(self)
        f = z3.ToInt(r)
        d = r - z3.ToReal(f)
        half = z3.RealVal('1/2')
        up = z3.Or(d > half, z3.And(d == half, f % 2 == 1))
        return mk_int(z3.If(up, f + 1, f))

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        D = _den(self)
        return mk_int(num_at(self, D) / D if D is not None else z3.ToInt(real_expr(self)))

    def __ceil__(self):
        D = _den(self)
        return mk_int(-((-num_at(self, D)) / D) if D is not None else -z3.ToInt(-real_expr(self)))


class SymInt(_Num):
    __slots__ = ('e',)
    pytype = int

    def __init__(self, e):
        self.e = e

    def _value(self):
        return core.CURRENT.concretize(self.e)

    def __neg__(self):
        return mk_int(-self.e)

    def __index__(self):
        return self._value()
    __int__ = __index__

    def __float__(self):
        return float(self._value())

    def __invert__(self):
        return -self - 1

    def __lshift__(self, other):
        if isinstance(other, Sym):
            other = other._value()
        if other < 0:
            raise ValueError('negative shift count')
        return self * (1 << other)

    def __rlshift__(self, other):
        return other << self._value()

    def __rshift__(self, other):
        if isinstance(other, Sym):
            other = other._value()
        if other < 0:
            raise ValueError('negative shift count')
        return self // (1 << other)

    def __rrshift__(self, other):
        return other >> self._value()

    def __and__(self, other):
        return self._value() & int(other)
    __rand__ = __and__

    def __or__(self, other):
        return self._value() | int(other)
    __ror__ = __or__

    def __xor__(self, other):
        return self._value() ^ int(other)
    __rxor__ = __xor__

    def bit_length(self):
        # fork on the magnitude
        a = abs(self)
        n = 0
        while a >= (1 << n):
            n += 1
            if n > 4096:
                raise Unsupported('bit_length')
        return n

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    def limit_denominator(self, n=1000000):
        return self


class SymReal(_Num):
    """A rational number: n/den (n a z3 Int), or e (a z3 Real) if den is None."""
    __slots__ = ('_e', 'kind', 'den', 'n')

    def __init__(self, kind, n=None, den=None, e=None):
        self.kind = kind        # 'float' or 'fraction' (or 'int' mixed in a table)
        self.n = n
        self.den = den
        self._e = e

    @property
    def e(self):
        if self._e is None:
            self._e = z3.ToReal(self.n) / self.den
        return self._e

    @property
    def pytype(self):
        return {'float': float, 'fraction': Fraction, 'int': float}[self.kind]

    def _value(self):
        if self.den is not None:
            v = Fraction(core.CURRENT.concretize(self.n), self.den)
        else:
            v = Fraction(core.CURRENT.concretize(self.e))
        if self.kind != 'fraction':
            f = float(v)
            return f
        return v

    def __neg__(self):
        if self.den is not None:
            return mk_rat(-self.n, self.den, self.kind)
        return mk_real(-self.e, self.kind)

    def __int__(self):
        return int(self._value())

    def __float__(self):
        return float(self._value())

    def is_integer(self):
        if self.den is not None:
            return mk_bool(_simplify(self.n % self.den == 0))
        return mk_bool(z3.IsInt(self.e))

    def _reduced(self):
        """Return numerator, denominator (forks on the denominator)."""
        if self.den is None:
            v = Fraction(self._value())
            return v.numerator, v.denominator
        n = self.n
        D = self.den
        # denominators are divisors of D, try the small ones first
        divs = sorted(d for d in _divisors(D))
        for d in divs:
            # value is integer multiple of 1/d?
            if d == D or core.CURRENT.fork(_simplify((n * d) % D == 0)):
                return mk_int((n * d) / D), d

    @property
    def numerator(self):
        return self._reduced()[0]

    @property
    def denominator(self):
        return self._reduced()[1]

    def as_integer_ratio(self):
        return self._reduced()

    def limit_denominator(self, n=1000000):
        if self.den is not None and self.den <= n:
            return SymReal('fraction', n=self.n, den=self.den)
        return Fraction(self._value()).limit_denominator(n)


def _divisors(n):
    r = []
    i = 1
    while i * i <= n:
        if n % i == 0:
            r.append(i)
            if i * i != n:
                r.append(n // i)
        i += 1
        if i > 100000:
            raise Unsupported('denominator too large')
    return r


def to_int(x):
    """int(x) for a symbolic number."""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if x.den is not None:
        n, D = x.n, x.den
        return mk_int(z3.If(n >= 0, n / D, -((-n) / D)))
    e = x.e
    return mk_int(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def to_fraction(*args):
    if len(args) == 1:
        x, = args
        if isinstance(x, (SymInt, SymBool)):
            return mk_rat(int_expr(x), 1, 'fraction')
        if not isinstance(x, Sym):
            return Fraction(x)
        return SymReal('fraction', n=x.n, den=x.den, e=x._e)
    a, b = args
    if b == 0:
        raise ZeroDivisionError
    return _divide(a, b, 'fraction')


def to_float(x):
    if isinstance(x, (SymInt, SymBool)):
        return mk_rat(int_expr(x), 1, 'float')
    return SymReal('float', n=x.n, den=x.den, e=x._e)


def frexp(x):
    """math.frexp for a symbolic number (in exact arithmetic).

    Forks over the exponent.
    """
    if x == 0:
        return 0.0, 0
    if x < 0:
        m, e = frexp(-x)
        return -m, e
    # binary search by forking: 2^(e-1) <= x < 2^e; the exponent becomes concrete
    lo, hi = -80, 80
    while lo < hi:
        mid = (lo + hi) // 2
        if x < Fraction(2) ** mid:
            hi = mid
        else:
            lo = mid + 1
    e = lo
    if e in (-80, 80):
        raise Unsupported('frexp exponent out of range')
    return _divide(x, Fraction(2) ** e, 'float'), e


# ---------------------------------------------------------------- strings
class SymChar:
    """One symbolic character: a z3 Int over a finite alphabet."""
    __slots__ = ('e', 'alphabet')

    def __init__(self, e, alphabet):
        self.e = e
        self.alphabet = alphabet    # tuple of characters

    def test(self, pred):
        """Return z3 Bool or bool: pred(char) is true."""
        yes = [c for c in self.alphabet if pred(c)]
        if not yes:
            return False
        if len(yes) == len(self.alphabet):
            return True
        return z3.Or(*[self.e == ord(c) for c in yes]) if len(yes) > 1 else self.e == ord(yes[0])

    def map(self, func):
        """Return a SymChar or char mapped by func (1:1 char -> char)."""
        m = [(c, func(c)) for c in self.alphabet]
        if all(c == d for c, d in m):
            return self
        if any(len(d) != 1 for c, d in m):
            raise Unsupported('character mapping changes length')
        out = tuple(sorted(set(d for c, d in m)))
        if len(out) == 1:
            return out[0]
        e = self.e
        for c, d in m:
            if c != d:
                e = z3.If(self.e == ord(c), z3.IntVal(ord(d)), e)
        return SymChar(e, out)


def _c_eq(a, b):
    """z3 Bool or bool: characters are equal."""
    sa, sb = isinstance(a, SymChar), isinstance(b, SymChar)
    if not sa and not sb:
        return a == b
    if not sa:
        a, b = b, a
        sa, sb = sb, sa
    if not sb:
        if b not in a.alphabet:
            return False
        if len(a.alphabet) == 1:
            return True
        return a.e == ord(b)
    if a.e.eq(b.e):
        return True
    if not set(a.alphabet) & set(b.alphabet):
        return False
    return a.e == b.e


def _c_ite(c, a, b):
    """The character a or b."""
    sa, sb = isinstance(a, SymChar), isinstance(b, SymChar)
    if not sa and not sb and a == b:
        return a
    alphabet = set(a.alphabet if sa else a) | set(b.alphabet if sb else b)
    e = _simplify(z3.If(c, a.e if sa else z3.IntVal(ord(a)), b.e if sb else z3.IntVal(ord(b))))
    if z3.is_int_value(e):
        return chr(e.as_long())
    return SymChar(e, tuple(sorted(alphabet)))


def greater(a, b):
    """a > b for keys: numbers or tuples of numbers, without forking where possible."""
    if type(a) is tuple and type(b) is tuple:
        r = len(a) > len(b)
        for x, y in reversed(list(zip(a, b))):
            eq = x == y
            r = or_(greater(x, y), and_(eq, r)) if eq is not False else greater(x, y)
        return r
    return a > b


def _truth(x):
    return core.CURRENT.fork(x) if isinstance(x, z3.BoolRef) else x


def chars_of(s):
    return s.chars if isinstance(s, SymStr) else tuple(s)


def mk_str(chars):
    """Return a plain str if no symbolic characters, else SymStr."""
    chars = tuple(chars)
    if any(isinstance(c, SymChar) for c in chars):
        return SymStr(chars)
    return ''.join(chars)


def is_str(x):
    return isinstance(x, (str, SymStr))


class SymStr(Sym):
    """A string of known length with (some) symbolic characters."""
    __slots__ = ('chars',)
    pytype = str

    def __init__(self, chars):
        self.chars = tuple(chars)

    def _value(self):
        r = []
        for c in self.chars:
            if isinstance(c, SymChar):
                v = core.CURRENT.concretize(c.e)
                r.append(chr(v))
            else:
                r.append(c)
        return ''.join(r)

    def __str__(self):
        return self._value()

    def __repr__(self):
        return repr(self._value())

    def __format__(self, spec):
        return format(self._value(), spec)

    def __hash__(self):
        return hash(self._value())

    def __bool__(self):
        return bool(self.chars)

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        for c in self.chars:
            yield mk_str((c,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk_str(self.chars[k])
        return mk_str((self.chars[k],))

    def __add__(self, other):
        if not is_str(other):
            return NotImplemented
        return mk_str(self.chars + chars_of(other))

    def __radd__(self, other):
        if not is_str(other):
            return NotImplemented
        return mk_str(chars_of(other) + self.chars)

    def __mul__(self, n):
        if isinstance(n, Sym):
            n = n._value()
        return mk_str(self.chars * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        return self._value() % args

    def __eq__(self, other):
        if not is_str(other):
            return False
        b = chars_of(other)
        if len(b) != len(self.chars):
            return False
        return _all_eq(self.chars, b)

    def __ne__(self, other):
        return not_(self == other)

    def _order(self, other):
        """-1, 0, 1 (forks)."""
        a, b = self.chars, chars_of(other)
        for x, y in zip(a, b):
            if not _truth(_c_eq(x, y)):
                ex = x.e if isinstance(x, SymChar) else z3.IntVal(ord(x))
                ey = y.e if isinstance(y, SymChar) else z3.IntVal(ord(y))
                return -1 if _truth(_simplify(ex < ey)) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, other):
        return self._order(other) < 0 if is_str(other) else NotImplemented

    def __le__(self, other):
        return self._order(other) <= 0 if is_str(other) else NotImplemented

    def __gt__(self, other):
        return self._order(other) > 0 if is_str(other) else NotImplemented

    def __ge__(self, other):
        return self._order(other) >= 0 if is_str(other) else NotImplemented

    def __contains__(self, sub):
        return str_find(self, sub) >= 0

    def __getattr__(self, name):
        f = STR_METHODS.get(name)
        if f is None:
            if name.startswith('__') or not hasattr(str, name):
                raise AttributeError(name)
            # unknown string method: fall back to concrete values
            return getattr(self._value(), name)
        return lambda *a, **k: f(self, *a, **k)


def _all_eq(a, b):
    r = []
    for x, y in zip(a, b):
        q = _c_eq(x, y)
        if q is False:
            return False
        if q is not True:
            r.append(q)
    if not r:
        return True
    return mk_bool(z3.And(*r) if len(r) > 1 else r[0])


def _norm_range(n, start, end):
    start, end, _ = slice(start, end).indices(n)
    return start, end


def char_at(s, k):
    """The character of the text s at a symbolic index within it."""
    e = z3.IntVal(ord(s[-1]))
    for i in range(len(s) - 2, -1, -1):
        e = z3.If(k.e == i, z3.IntVal(ord(s[i])), e)
    alphabet = tuple(sorted(set(s)))
    return mk_str([SymChar(e, alphabet)]) if len(alphabet) > 1 else alphabet[0]


def str_find(s, sub, start=None, end=None):
    a, b = chars_of(s), chars_of(sub)
    start, end = _norm_range(len(a), start, end)
    if len(b) == 1 and isinstance(b[0], SymChar) and not any(isinstance(c, SymChar) for c in a) and end - start > 2:
        # the index without a fork
        there = [(i, _c_eq(a[i], b[0])) for i in range(start, end)]
        there = [(i, q) for i, q in there if q is not False]
        if not there or not mk_bool(z3.Or(*(q for i, q in there))):
            return -1
        e = z3.IntVal(there[-1][0])
        for i, q in reversed(there[:-1]):
            e = z3.If(q, z3.IntVal(i), e)
        return SymInt(e)
    for i in range(start, end - len(b) + 1):
        if _all_eq(a[i:i+len(b)], b):
            return i
    return -1


def str_rfind(s, sub, start=None, end=None):
    a, b = chars_of(s), chars_of(sub)
    start, end = _norm_range(len(a), start, end)
    for i in range(end - len(b), start - 1, -1):
        if _all_eq(a[i:i+len(b)], b):
            return i
    return -1


def str_index(s, sub, *r):
    i = str_find(s, sub, *r)
    if i < 0:
        raise ValueError('substring not found')
    return i


def str_rindex(s, sub, *r):
    i = str_rfind(s, sub, *r)
    if i < 0:
        raise ValueError('substring not found')
    return i


def str_count(s, sub, start=None, end=None):
    a, b = chars_of(s), chars_of(sub)
    start, end = _norm_range(len(a), start, end)
    if len(b) == 1:
        # no overlap possible: count without forking
        n = 0
        for c in a[start:end]:
            q = _c_eq(c, b[0])
            n = n + (mk_bool(q)._int() if isinstance(q, z3.BoolRef) else int(q))
        return n
    if not b:
        return end - start + 1
    n = 0
    i = start
    while i <= end - len(b):
        if _all_eq(a[i:i+len(b)], b):
            n += 1
            i += len(b)
        else:
            i += 1
    return n


def str_startswith(s, prefix, start=None, end=None):
    if isinstance(prefix, tuple):
        return or_(*[str_startswith(s, p, start, end) for p in prefix])
    a, b = chars_of(s), chars_of(prefix)
    start, end = _norm_range(len(a), start, end)
    a = a[start:end]
    return len(b) <= len(a) and _all_eq(a[:len(b)], b)


def str_endswith(s, suffix, start=None, end=None):
    if isinstance(suffix, tuple):
        return or_(*[str_endswith(s, p, start, end) for p in suffix])
    a, b = chars_of(s), chars_of(suffix)
    start, end = _norm_range(len(a), start, end)
    a = a[start:end]
    return len(b) <= len(a) and _all_eq(a[len(a)-len(b):], b)


def str_replace(s, old, new, count=-1):
    a, b, c = chars_of(s), chars_of(old), chars_of(new)
    out = []
    i = 0
    if not b:
        return s._value().replace(str(old), str(new), count)
    while i < len(a):
        if count != 0 and i + len(b) <= len(a) and _all_eq(a[i:i+len(b)], b):
            out.extend(c)
            i += len(b)
            count -= 1
        else:
            out.append(a[i])
            i += 1
    return mk_str(out)


def char_in(c, pred):
    return c.test(pred) if isinstance(c, SymChar) else pred(c)


def _strip(left, right):
    def f(s, chars=None):
        a = list(chars_of(s))
        if chars is None:
            pred = str.isspace
            test = lambda c: char_in(c, pred)
        elif isinstance(chars, SymStr):
            test = lambda c: z3.Or(*[z3.BoolVal(q) if isinstance(q, bool) else q
                                     for q in (_c_eq(c, d) for d in chars.chars)])
        else:
            test = lambda c: char_in(c, lambda d: d in chars)
        if left:
            while a and _truth(test(a[0])):
                a.pop(0)
        if right:
            while a and _truth(test(a[-1])):
                a.pop()
        return mk_str(a)
    return f


def str_split(s, sep=None, maxsplit=-1):
    a = chars_of(s)
    r = []
    cur = []
    if sep is None:
        i = 0
        n = len(a)
        while i < n:
            while i < n and _truth(char_in(a[i], str.isspace)):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                rest = list(a[i:])
                while rest and _truth(char_in(rest[-1], str.isspace)):
                    rest.pop()
                r.append(mk_str(rest))
                return r
            j = i
            while j < n and not _truth(char_in(a[j], str.isspace)):
                j += 1
            r.append(mk_str(a[i:j]))
            maxsplit -= 1
            i = j
        return r
    b = chars_of(sep)
    if not b:
        raise ValueError('empty separator')
    i = 0
    while i < len(a):
        if maxsplit != 0 and i + len(b) <= len(a) and _all_eq(a[i:i+len(b)], b):
            r.append(mk_str(cur))
            cur = []
            i += len(b)
            maxsplit -= 1
        else:
            cur.append(a[i])
            i += 1
    r.append(mk_str(cur))
    return r


def str_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return str_split(s, sep)
    if sep is None:
        return s._value().rsplit(sep, maxsplit)
    a, b = chars_of(s), chars_of(sep)
    r = []
    end = len(a)
    i = end - len(b)
    while i >= 0 and maxsplit:
        if _all_eq(a[i:i+len(b)], b):
            r.append(mk_str(a[i+len(b):end]))
            end = i
            i -= len(b)
            maxsplit -= 1
        else:
            i -= 1
    r.append(mk_str(a[:end]))
    return r[::-1]


def str_partition(s, sep):
    i = str_find(s, sep)
    if i < 0:
        return (s, '', '')
    return (s[:i], sep, s[i+len(sep):])


def str_rpartition(s, sep):
    i = str_rfind(s, sep)
    if i < 0:
        return ('', '', s)
    return (s[:i], sep, s[i+len(sep):])


_LINE_ENDS = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


def str_splitlines(s, keepends=False):
    a = chars_of(s)
    r = []
    cur = []
    i = 0
    while i < len(a):
        c = a[i]
        if _truth(char_in(c, lambda d: d in _LINE_ENDS)):
            end = [c]
            if _truth(char_in(c, lambda d: d == '\r')) and i + 1 < len(a) and \
                    _truth(char_in(a[i+1], lambda d: d == '\n')):
                i += 1
                end.append(a[i])
            r.append(mk_str(cur + (end if keepends else [])))
            cur = []
        else:
            cur.append(c)
        i += 1
    if cur:
        r.append(mk_str(cur))
    return r


def str_join(sep, items):
    out = []
    first = True
    for item in items:
        if not is_str(item):
            raise TypeError('sequence item: expected str instance, %s found' % type(item).__name__)
        if not first:
            out.extend(chars_of(sep))
        first = False
        out.extend(chars_of(item))
    return mk_str(out)


def _is(pred):
    def f(s):
        if not s.chars:
            return False
        r = []
        for c in s.chars:
            q = char_in(c, pred)
            if q is False:
                return False
            if q is not True:
                r.append(q)
        return mk_bool(z3.And(*r) if len(r) > 1 else r[0]) if r else True
    return f


def _map(func):
    def f(s):
        return mk_str(c.map(func) if isinstance(c, SymChar) else func(c) for c in s.chars)
    return f


def _cased(pred, other):
    """isupper()/islower(): all cased characters are upper, and at least one."""
    def f(s):
        bad = [char_in(c, other) for c in s.chars]
        good = [char_in(c, pred) for c in s.chars]
        e = lambda q: z3.BoolVal(q) if isinstance(q, bool) else q
        return mk_bool(_simplify(z3.And(z3.Not(z3.Or(*map(e, bad))), z3.Or(*map(e, good)))))
    return f


def str_format(s, *args, **kwargs):
    """str.format with symbolic string arguments; only simple fields stay symbolic."""
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.extend(lit)
        if field is None:
            continue
        if field == '':
            field = auto
            auto += 1
        elif field.isdigit():
            field = int(field)
        elif not field.isidentifier():
            return s.format(*map(concrete, args), **{k: concrete(v) for k, v in kwargs.items()})
        v = args[field] if isinstance(field, int) else kwargs[field]
        if conv == 'r':
            v = repr(v)
        elif conv == 's' and not isinstance(v, SymStr):
            v = str(v)
        if spec == '' and isinstance(v, SymStr):
            out.extend(v.chars)
        elif isinstance(v, SymInt) and spec in _BASES:
            out.extend(chars_of(int_to_str(v, spec)))
        else:
            spec = spec.format(*map(concrete, args), **{k: concrete(x) for k, x in kwargs.items()})
            out.extend(format(v, spec))
    return mk_str(out)


_BASES = {'': 10, 'd': 10, 'b': 2, 'o': 8, 'x': 16, 'X': 16}


def int_to_str(x, spec='', sign=''):
    """The digits of a symbolic integer; forks on the sign and the number of digits."""
    base = _BASES[spec]
    if _truth(x < 0):
        return mk_str(('-',) + chars_of(int_to_str(-x, spec)))
    if not isinstance(x, SymInt):
        return format(x, spec)
    n = 1
    while _truth(x >= base ** n):
        n += 1
        if n > 24:
            return format(x._value(), spec)
    chars = []
    if _truth(x >= base ** (n - 1)) or n == 1:
        for i in range(n - 1, -1, -1):
            d = x // base ** i % base
            if not isinstance(d, SymInt):
                chars.append(format(d, spec))
                continue
            if base <= 10:
                e = d.e + 48
            else:
                e = z3.If(d.e < 10, d.e + 48, d.e + (87 if spec == 'x' else 55))
            lo = 1 if i == n - 1 and n > 1 else 0
            chars.append(SymChar(e, tuple(format(j, spec) for j in range(lo, base))))
    return mk_str(sign) + mk_str(chars) if sign else mk_str(chars)


def str_expandtabs(s, tabsize=8):
    out = []
    col = 0
    for c in s.chars:
        if _truth(char_in(c, lambda d: d == '\t')):
            n = tabsize - col % tabsize if tabsize else 0
            out.extend(' ' * n)
            col += n
        else:
            out.append(c)
            col = 0 if _truth(char_in(c, lambda d: d in '\r\n')) else col + 1
    return mk_str(out)


def str_removeprefix(s, p):
    return s[len(p):] if str_startswith(s, p) else s


def str_removesuffix(s, p):
    return s[:-len(p)] if len(p) and str_endswith(s, p) else s


def _just(left, right):
    def f(s, width, fill=' '):
        n = max(0, int(width) - len(s))
        if left and right:
            return s._value().center(width, fill)
        return mk_str((tuple(fill * n) if right else ()) + s.chars + (tuple(fill * n) if left else ()))
    return f


STR_METHODS = dict(
    find=str_find, rfind=str_rfind, index=str_index, rindex=str_rindex, count=str_count,
    startswith=str_startswith, endswith=str_endswith, replace=str_replace,
    strip=_strip(True, True), lstrip=_strip(True, False), rstrip=_strip(False, True),
    split=str_split, rsplit=str_rsplit, partition=str_partition, rpartition=str_rpartition,
    splitlines=str_splitlines, join=str_join, expandtabs=str_expandtabs,
    isspace=_is(str.isspace), isdigit=_is(str.isdigit), isalpha=_is(str.isalpha),
    isalnum=_is(str.isalnum), isdecimal=_is(str.isdecimal), isnumeric=_is(str.isnumeric),
    isascii=_is(str.isascii), isprintable=_is(str.isprintable),
    isupper=_cased(str.isupper, str.islower), islower=_cased(str.islower, str.isupper),
    upper=_map(str.upper), lower=_map(str.lower), casefold=_map(str.casefold),
    swapcase=_map(str.swapcase),
    removeprefix=str_removeprefix, removesuffix=str_removesuffix,
    ljust=_just(True, False), rjust=_just(False, True),
)


def concrete(x):
    """Return a concrete Python value (forking) for any value."""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, Sym):
        return x._value()
    if type(x) is tuple:
        return tuple(map(concrete, x))
    if type(x) is list:
        return list(map(concrete, x))
    return x


def is_sym(x):
    return isinstance(x, Sym)
