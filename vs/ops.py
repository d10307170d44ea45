"""Meaning of calls, subscripts and membership tests on symbolic values."""

import builtins
import fractions
import math
import re
import types
import operator

from . import core, symre, values as V
from .values import Sym, SymBool, SymInt, SymReal, SymStr, SymChar, is_sym, concrete

Fraction = fractions.Fraction

FUNCTIONS = set()       # the functions of the code under test that were executed


def _vs_fn(name):
    FUNCTIONS.add(name)


# ------------------------------------------------------------------ builtins
def _isinstance(x, cls):
    if isinstance(x, Sym):
        t = x.pytype
        if isinstance(cls, tuple):
            return any(_isinstance(x, c) for c in cls)
        return issubclass(t, cls)
    return isinstance(x, cls)


def _type(x, *args):
    if args:
        return type(x, *args)
    return x.pytype if isinstance(x, Sym) else type(x)


def _int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, (SymInt, SymReal, SymBool)):
            return V.to_int(x)
        if isinstance(x, SymStr):
            return str_to_int(x)
    return int(*map(concrete, a), **{n: concrete(v) for n, v in k.items()})


def str_to_int(s):
    """int(str) symbolically for a string of decimal digits (with sign), else concrete."""
    cs = s.chars
    r = 0
    neg = False
    if cs and not isinstance(cs[0], SymChar) and cs[0] in '+-' and len(cs) > 1:
        neg = cs[0] == '-'
        cs = cs[1:]
    for c in cs:
        if isinstance(c, SymChar):
            if not all(d in '0123456789' for d in c.alphabet):
                ok = V._truth(c.test(lambda d: d in '0123456789'))
                if not ok:
                    return int(s._value())
            r = r * 10 + V.mk_int(c.e - 48)
        elif c in '0123456789':
            r = r * 10 + int(c)
        else:
            return int(s._value())
    return -r if neg else r


def _float(*a):
    if a and isinstance(a[0], (SymInt, SymReal, SymBool)):
        return V.to_float(a[0])
    return float(*map(concrete, a))


def _str(*a, **k):
    if len(a) == 1 and isinstance(a[0], SymStr):
        return a[0]
    if len(a) == 1 and isinstance(a[0], SymInt):
        return V.int_to_str(a[0])
    return str(*a, **k)


def _format(x, spec=''):
    if isinstance(x, SymInt) and spec in V._BASES:
        return V.int_to_str(x, spec)
    if isinstance(x, SymStr) and spec == '':
        return x
    return format(concrete(x), concrete(spec))


def _map(f, *its):
    for args in zip(*its):
        yield _vs_call(f, *args)


def _bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], (SymInt, SymReal)):
        return a[0] != 0
    return bool(*a)


def _fraction(*a, **k):
    if not k and a and all(isinstance(x, (SymInt, SymReal, SymBool, int, Fraction, float)) for x in a):
        if len(a) == 1 or all(isinstance(x, (SymInt, SymBool, int, Fraction)) or
                              (isinstance(x, SymReal) and x.kind == 'fraction') for x in a):
            return V.to_fraction(*a)
    return Fraction(*map(concrete, a), **{n: concrete(v) for n, v in k.items()})


def _len(x):
    return len(x)


def _ord(c):
    if isinstance(c, SymStr):
        if len(c.chars) != 1:
            raise TypeError('ord() expected a character')
        ch = c.chars[0]
        return V.mk_int(ch.e) if isinstance(ch, SymChar) else ord(ch)
    return ord(c)


def _divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if V.is_num(a) and V.is_num(b):
            q = V._floor_div(a, b)
            return q, a - b * q
    return divmod(a, b)


def _abs(x):
    return abs(x)


def _hash(x):
    return hash(concrete(x))


def _repr(x):
    return repr(x)


def _frexp(x):
    if isinstance(x, (SymInt, SymReal)):
        return V.frexp(x)
    return math.frexp(x)


def _log2(x):
    # exact only for powers of two; forks on the exponent
    x = concrete(x)
    return math.log2(x)


def _via_concrete(f):
    def g(*a, **k):
        return f(*map(concrete, a), **{n: concrete(v) for n, v in k.items()})
    return g


def _floor(x):
    return x.__floor__() if isinstance(x, (SymInt, SymReal)) else math.floor(x)


def _ceil(x):
    return x.__ceil__() if isinstance(x, (SymInt, SymReal)) else math.ceil(x)


def _round(x, *a):
    return round(x, *a)


def _sum(it, *a, **k):
    return sum(it, *a, **k)


def _getattr(o, *a):
    a = tuple(map(concrete, a[:1])) + a[1:]
    return getattr(o, *a)


SYM_HANDLERS = {       # used when one of the arguments is symbolic
    format: _format, int: _int, float: _float, str: _str, bool: _bool, Fraction: _fraction,
    isinstance: _isinstance, type: _type, ord: _ord, divmod: _divmod, hash: _hash,
    math.frexp: _frexp, math.floor: _floor, math.ceil: _ceil, math.trunc: V.to_int,
    math.log2: _log2, getattr: _getattr, hasattr: _getattr,
    operator.contains: lambda c, x: _vs_in(x, c),
    operator.getitem: lambda c, x: _vs_getitem(c, x),
}
for _f in (math.gcd, math.lcm, math.log, math.sqrt, math.pow, math.ldexp, math.modf, math.isnan,
           math.isinf, chr, range, format, bin, hex, oct, setattr,
           re.escape):
    SYM_HANDLERS[_f] = _via_concrete(_f)
SYM_HANDLERS[hasattr] = _via_concrete(hasattr)

_RE_FUNCS = {re.match, re.search, re.fullmatch, re.sub, re.subn, re.split, re.findall, re.finditer}

_BUILTIN = type(len)
_CMETHOD = type(re.compile('').fullmatch)
_METHOD = types.MethodType
_FUNC = types.FunctionType
_MDESC = type(str.upper)


def _has_sym(a, k):
    for x in a:
        if isinstance(x, Sym):
            return True
    if k:
        for x in k.values():
            if isinstance(x, Sym):
                return True
    return False


def _extreme(f, a, k):
    """max() or min(), without forking where the items can be merged."""
    items = list(a[0]) if len(a) == 1 else list(a)
    key = k.get('key')
    keys = [_vs_call(key, x) for x in items] if key else items
    if not any(is_sym(y) or type(y) is tuple and any(map(is_sym, y)) for y in keys):
        if not items:
            if 'default' in k:
                return k['default']
            raise ValueError('%s() arg is an empty sequence' % f.__name__)
        i = f(range(len(items)), key=keys.__getitem__)
        return items[i]
    r, rk = items[0], keys[0]
    for x, y in zip(items[1:], keys[1:]):
        c = V.greater(y, rk) if f is max else V.greater(rk, y)
        try:
            merged = V.ite(c, x, r)
            mkey = tuple(V.ite(c, p, q) for p, q in zip(y, rk)) if type(y) is tuple else V.ite(c, y, rk)
        except core.Unsupported:
            if c:
                r, rk = x, y
        else:
            r, rk = merged, mkey
    return r


def _vs_call(f, /, *a, **k):
    t = type(f)
    if f is max or f is min:
        return _extreme(f, a, k)
    if t is _METHOD:
        if a and isinstance(a[0], SymStr) and type(f.__self__).__name__ == '_Dispatcher' and f.__name__ == 'get':
            a = (_dict_key(f.__self__._table, a[0]),)
        return f(*a, **k)
    if t.__name__ == '_Dispatcher' and a and isinstance(a[0], SymStr):
        key = _dict_key(f._table, a[0])
        return f(a[0] if isinstance(key, _Missing) and f.default else key, *a[1:], **k)
    if t is _FUNC:
        if f in _RE_FUNCS and _has_sym(a, k):
            return _call_re(f, a, k)
        return f(*a, **k)
    if t is _BUILTIN or t is _CMETHOD:
        s = f.__self__
        ts = type(s)
        if ts is str:
            return _call_str(f, s, a, k)
        if ts is types.ModuleType or s is None:
            if _has_sym(a, k):
                h = SYM_HANDLERS.get(f)
                if h:
                    return h(*a, **k)
            return f(*a, **k)
        if ts is dict or isinstance(s, dict):
            return _call_dict(f, s, a, k)
        if isinstance(s, (set, frozenset)):
            if a and isinstance(a[0], Sym):
                a = (_dict_key(s, a[0]),) + a[1:]
            return f(*a, **k)
        if ts is re.Pattern and _has_sym(a, k):
            return _call_re(f, a, k)
        return f(*a, **k)
    if t is type:
        if f in SYM_HANDLERS and _has_sym(a, k):
            return SYM_HANDLERS[f](*a, **k)
        if f is str or f is list or f is tuple:
            return f(*a, **k)
        if f is map:
            return _map(*a)
        if f is set and a and type(a[0]) is not str:
            items = list(a[0])
            return SymSet(items) if any(isinstance(x, SymStr) for x in items) else set(items)
        return f(*a, **k)
    if t is _MDESC and a and isinstance(a[0], SymStr):
        return getattr(a[0], f.__name__)(*a[1:], **k)
    if _has_sym(a, k):
        try:
            h = SYM_HANDLERS.get(f)
        except TypeError:
            h = None
        if h:
            return h(*a, **k)
    return f(*a, **k)


def _call_str(f, s, a, k):
    """Call a method of a plain string."""
    n = f.__name__
    if n == 'join':
        items = list(a[0])
        if any(isinstance(x, SymStr) for x in items):
            return V.str_join(s, items)
        return s.join(items)
    if n == 'format':
        if any(isinstance(x, (SymStr, SymInt)) for x in a) or any(isinstance(x, (SymStr, SymInt)) for x in k.values()):
            return V.str_format(s, *a, **k)
        return f(*a, **k)
    if _has_sym(a, k):
        h = V.STR_METHODS.get(n)
        if h and isinstance(a[0] if a else None, SymStr):
            return h(_PlainStr(s), *a, **k)
        return f(*map(concrete, a), **{n: concrete(v) for n, v in k.items()})
    return f(*a, **k)


def _PlainStr(s):
    return SymStr(tuple(s))


def _call_dict(f, s, a, k):
    if a and isinstance(a[0], Sym) and f.__name__ in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
        key = _dict_key(s, a[0])
        return f(key, *a[1:], **k)
    return f(*a, **k)


class _Missing:
    """A key that is in no dict."""


def _dict_key(d, x):
    """Return the concrete key of d that x equals (forks), or a key not in d."""
    if isinstance(x, SymBool):
        return bool(x)
    for key in list(d):
        if isinstance(key, Sym):
            raise core.Unsupported('symbolic dictionary key')
        if isinstance(x, SymStr) and isinstance(key, str) or \
           isinstance(x, (SymInt, SymReal)) and isinstance(key, (int, float, Fraction)):
            if x == key:
                return key
    return concrete(x) if False else _Missing()


def _call_re(f, a, k):
    """Regular expressions on symbolic texts; makes the arguments concrete (forks) if that can't be done."""
    try:
        s = getattr(f, '__self__', None)
        if isinstance(s, re.Pattern):
            return symre.call(f.__name__, s, a, k)
        flags = k.get('flags', 0)
        if type(a[0]) is str and not is_sym(flags):
            return symre.call(f.__name__, re.compile(a[0], flags), a[1:], {n: v for n, v in k.items() if n != 'flags'})
        if isinstance(a[0], re.Pattern):
            return symre.call(f.__name__, a[0], a[1:], k)
    except symre.Unsupported:
        pass
    return f(*map(concrete, a), **{n: concrete(v) for n, v in k.items()})


class SymSet:
    """A set with symbolic strings; membership tests fork."""
    def __init__(self, items=()):
        self.items = []
        for x in items:
            self.add(x)

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def discard(self, x):
        self.items = [y for y in self.items if not _truth(_eq(x, y))]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def copy(self):
        return SymSet(self.items)

    def __contains__(self, x):
        return bool(V.or_(*[_eq(x, y) for y in self.items])) if self.items else False

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    def difference(self, *others):
        return SymSet([x for x in self.items if not any(_vs_in(x, _sized(o)) for o in others)])

    def intersection(self, *others):
        return SymSet([x for x in self.items if all(_vs_in(x, _sized(o)) for o in others)])

    def union(self, *others):
        r = self.copy()
        r.update(*others)
        return r

    def issubset(self, other):
        return not self.difference(other)

    def issuperset(self, other):
        return all(x in self for x in other)

    def isdisjoint(self, other):
        return not self.intersection(other)

    def difference_update(self, *others):
        self.items = self.difference(*others).items

    def intersection_update(self, *others):
        self.items = self.intersection(*others).items

    def __sub__(self, other):
        return self.difference(other)

    def __and__(self, other):
        return self.intersection(other)

    def __or__(self, other):
        return self.union(other)

    __rand__, __ror__ = __and__, __or__

    def __rsub__(self, other):
        return SymSet([x for x in other if x not in self])

    def __le__(self, other):
        return self.issubset(other)

    def __ge__(self, other):
        return self.issuperset(other)

    def __lt__(self, other):
        return self.issubset(other) and not self.issuperset(other)

    def __gt__(self, other):
        return self.issuperset(other) and not self.issubset(other)

    def __eq__(self, other):
        return self.issubset(other) and self.issuperset(other)

    __hash__ = None


def _truth(x):
    return bool(x)


def _sized(o):
    return o if isinstance(o, (set, frozenset, dict, SymSet, tuple, list)) else list(o)


# ------------------------------------------------------------------ subscripts
def _plain_num(x):
    return type(x) in (int, float, Fraction) or isinstance(x, (SymInt, SymReal))


def _vs_getitem(o, k):
    if isinstance(k, SymInt) and type(o) in (tuple, list) and o:
        n = len(o)
        if all(map(_plain_num, o)):
            if k >= n or k < -n:
                raise IndexError('%s index out of range' % type(o).__name__)
            if k < 0:
                k = k + n
                if not isinstance(k, SymInt):
                    return o[k]
            r = o[-1]
            for i in range(n - 2, -1, -1):
                if type(o[i]) is type(r) and not is_sym(r) and o[i] == r:
                    continue
                r = V.ite(k == i, o[i], r)
            return r
        if k >= n or k < -n:
            raise IndexError('%s index out of range' % type(o).__name__)
        return o[k._value()]
    if isinstance(k, Sym) and isinstance(o, dict):
        if isinstance(k, SymStr):
            found, value = _lookup(o, k)
            if found:
                return value
        key = _dict_key(o, k)
        if isinstance(key, _Missing):
            # let a defaultdict or a __missing__ method get a chance
            return o[concrete(k)]
        return o[key]
    if isinstance(k, SymInt) and type(o) is str and o:
        n = len(o)
        if k >= n or k < -n:
            raise IndexError('string index out of range')
        if k < 0:
            k = k + n
        return V.char_at(o, k) if isinstance(k, SymInt) else o[k]
    if isinstance(k, Sym) and isinstance(o, (str, list, tuple)):
        return o[concrete(k)]
    if type(k) is tuple and isinstance(o, dict) and any(isinstance(x, Sym) for x in k):
        return o[_dict_tuple_key(o, k)]
    return o[k]


def _lookup(d, k):
    """Look up a symbolic string in a dict of tuples with numbers, without a fork for every key."""
    values = [(key, v) for key, v in d.items() if isinstance(key, str) and len(key) == len(k)]
    if len(values) < 2 or not all(type(v) is tuple and len(v) == len(values[0][1]) and all(map(_plain_num, v)) for key, v in values):
        return False, None
    values = [(k == key, v) for key, v in values]
    values = [(c, v) for c, v in values if c is not False]
    if not values or not V.or_(*[c for c, v in values]):
        return False, None
    result = list(values[-1][1])
    for c, v in reversed(values[:-1]):
        for i, x in enumerate(v):
            r = result[i]
            if not (type(x) is type(r) and not is_sym(r) and x == r):
                result[i] = V.ite(c, x, r)
    return True, tuple(result)


def _dict_tuple_key(d, k):
    for key in list(d):
        if isinstance(key, tuple) and len(key) == len(k):
            ok = True
            for x, y in zip(k, key):
                if isinstance(x, Sym):
                    c = V.and_(x == y)
                    if c is False:
                        ok = False
                        break
                elif x != y:
                    ok = False
                    break
            if ok and all(bool(x == y) for x, y in zip(k, key)):
                return key
    return _Missing()


def _vs_in(x, c):
    if isinstance(c, str):
        if isinstance(x, SymStr):
            return V.str_find(_PlainStr(c), x) >= 0
        return x in c
    if isinstance(c, SymStr):
        return V.str_find(c, x) >= 0
    if isinstance(c, (dict, set, frozenset)) or type(c) in (type({}.keys()),):
        if isinstance(x, SymStr):
            return bool(V.or_(*[x == y for y in c if isinstance(y, (str, SymStr)) and len(y) == len(x)]))
        if isinstance(x, Sym):
            return not isinstance(_dict_key(c, x), _Missing)
        if type(x) is tuple and any(isinstance(y, Sym) for y in x):
            return not isinstance(_dict_tuple_key(c, x), _Missing)
        if isinstance(c, (set, frozenset)) or isinstance(c, dict):
            return x in c
    if isinstance(x, Sym) and isinstance(c, range):
        if c.step == 1:
            return bool(V.and_(x >= c.start, x < c.stop)) and (not isinstance(x, SymReal) or bool(x.is_integer()))
        return concrete(x) in c
    if isinstance(x, (SymInt, SymReal, SymStr)) and type(c) in (tuple, list):
        return bool(V.or_(*[_eq(x, y) for y in c]))
    return x in c


def _eq(x, y):
    r = x == y
    return r if isinstance(r, (bool, SymBool)) else bool(r)


# ------------------------------------------------------------------ f-strings
def _vs_fmt(v, conv, spec):
    if conv == 114:
        v = repr(v)
    elif conv == 97:
        v = ascii(v)
    elif conv == 115 and not isinstance(v, SymStr):
        v = _str(v)
    if isinstance(v, (SymStr, SymInt)):
        return _format(v, spec)
    return format(v, concrete(spec))


def _vs_fstr(*parts):
    return V.str_join('', parts) if any(isinstance(p, SymStr) for p in parts) else ''.join(parts)


def _vs_plain(x):
    return concrete(x) if isinstance(x, Sym) else x


NAMES = dict(_vs_call=_vs_call, _vs_getitem=_vs_getitem, _vs_in=_vs_in, _vs_fn=_vs_fn,
             _vs_fmt=_vs_fmt, _vs_fstr=_vs_fstr, _vs_plain=_vs_plain)
