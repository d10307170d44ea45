"""Regular expressions on symbolic strings: a backtracking matcher that forks on tests of characters."""

import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:     # before Python 3.11
    import sre_parse, sre_constants as sc

from . import values as V
from .values import SymStr, SymChar, chars_of, mk_str, concrete

_CATEGORY = {
    sc.CATEGORY_DIGIT: (str.isdigit, True), sc.CATEGORY_NOT_DIGIT: (str.isdigit, False),
    sc.CATEGORY_SPACE: (str.isspace, True), sc.CATEGORY_NOT_SPACE: (str.isspace, False),
    sc.CATEGORY_WORD: (lambda c: c.isalnum() or c == '_', True), sc.CATEGORY_NOT_WORD: (lambda c: c.isalnum() or c == '_', False),
}


class Unsupported(Exception):
    """The pattern or its use is not handled here."""


def _in_set(items, c):
    negate = False
    for op, av in items:
        if op is sc.NEGATE:
            negate = True
        elif op is sc.LITERAL and ord(c) == av or op is sc.RANGE and av[0] <= ord(c) <= av[1]:
            return not negate
        elif op is sc.CATEGORY:
            f, want = _CATEGORY[av]
            if bool(f(c)) == want:
                return not negate
        elif op not in (sc.LITERAL, sc.RANGE):
            raise Unsupported(op)
    return negate


class Match:
    def __init__(self, pattern, string, groups, names):
        self.re = pattern
        self.string = string
        self._groups = groups
        self._names = names
        self.lastindex = None

    def _index(self, g):
        return self._names[g] if isinstance(g, str) else g

    def span(self, g=0):
        return self._groups.get(self._index(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _text(self, g, default=None):
        s, e = self.span(g)
        return default if s < 0 else self.string[s:e]

    def group(self, *gs):
        if not gs:
            return self._text(0)
        r = tuple(self._text(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = _text

    def groups(self, default=None):
        return tuple(self._text(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._text(g, default) for n, g in self._names.items()}

    def expand(self, template):
        return _expand(self, template)


class Matcher:
    def __init__(self, pattern, string):
        self.pattern = pattern
        self.string = string
        self.chars = chars_of(string)
        self.flags = pattern.flags
        if self.flags & (re.IGNORECASE | re.ASCII | re.LOCALE):
            raise Unsupported('flags')
        self.tree = sre_parse.parse(pattern.pattern, pattern.flags & ~re.UNICODE)

    def test(self, i, pred):
        if i >= len(self.chars):
            return False
        c = self.chars[i]
        if not isinstance(c, SymChar):
            return bool(pred(c))
        r = c.test(pred)
        return r if isinstance(r, bool) else bool(V.mk_bool(r))

    def at(self, i, groups, nonempty=False):
        """A match at position i, or None."""
        for end, g in self.seq(list(self.tree), 0, i, groups):
            if nonempty and end == i:
                continue
            g = dict(g)
            g[0] = (i, end)
            m = Match(self.pattern, self.string, g, dict(self.pattern.groupindex))
            closed = g.get('last')
            m.lastindex = closed
            return m

    def seq(self, items, k, i, g):
        if k == len(items):
            yield i, g
            return
        for j, h in self.one(items[k], i, g):
            yield from self.seq(items, k + 1, j, h)

    def one(self, item, i, g):
        op, av = item
        if op is sc.LITERAL:
            if self.test(i, lambda c: ord(c) == av):
                yield i + 1, g
        elif op is sc.NOT_LITERAL:
            if self.test(i, lambda c: ord(c) != av):
                yield i + 1, g
        elif op is sc.ANY:
            if self.test(i, lambda c: bool(self.flags & re.DOTALL) or c != '\n'):
                yield i + 1, g
        elif op is sc.IN:
            if self.test(i, lambda c: _in_set(av, c)):
                yield i + 1, g
        elif op is sc.BRANCH:
            for b in av[1]:
                yield from self.seq(list(b), 0, i, g)
        elif op is sc.SUBPATTERN:
            group, add, remove, p = av
            if add or remove:
                raise Unsupported('flags')
            for j, h in self.seq(list(p), 0, i, g):
                if group is not None:
                    h = dict(h)
                    h[group] = (i, j)
                    h['last'] = group
                yield j, h
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            yield from self.repeat(av[0], av[1], list(av[2]), op is sc.MAX_REPEAT, i, g)
        elif op is sc.AT:
            if self.anchor(av, i):
                yield i, g
        elif op is sc.GROUPREF:
            s, e = g.get(av, (-1, -1))
            if s >= 0:
                n = e - s
                if i + n <= len(self.chars) and all(V._truth(V._c_eq(a, b)) for a, b in zip(self.chars[s:e], self.chars[i:i + n])):
                    yield i + n, g
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                lo, hi = p.getwidth()
                found = None
                if lo != hi:
                    raise Unsupported('look behind')
                if i - lo >= 0:
                    found = next(self.seq(list(p), 0, i - lo, g), None)
            else:
                found = next(self.seq(list(p), 0, i, g), None)
            if (found is not None) == (op is sc.ASSERT):
                yield i, (found[1] if found and op is sc.ASSERT else g)
        else:
            raise Unsupported(op)

    def repeat(self, lo, hi, p, greedy, i, g, count=0):
        more = hi is sc.MAXREPEAT or count < hi
        if not greedy and count >= lo:
            yield i, g
        if more:
            for j, h in self.seq(p, 0, i, g):
                if j > i or count < lo:
                    yield from self.repeat(lo, hi, p, greedy, j, h, count + 1)
        if greedy and count >= lo:
            yield i, g

    def anchor(self, av, i):
        n = len(self.chars)
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return i == 0 or av is sc.AT_BEGINNING and bool(self.flags & re.MULTILINE) and self.test(i - 1, lambda c: c == '\n')
        if av is sc.AT_END_STRING:
            return i == n
        if av is sc.AT_END:
            if i == n:
                return True
            if self.flags & re.MULTILINE:
                return self.test(i, lambda c: c == '\n')
            return i == n - 1 and self.test(i, lambda c: c == '\n')
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            word = lambda c: c.isalnum() or c == '_'
            r = (i > 0 and self.test(i - 1, word)) != self.test(i, word)
            return r == (av is sc.AT_BOUNDARY)
        raise Unsupported(av)


def _range(s, pos, endpos):
    n = len(s)
    if endpos is not None and endpos < n:
        s = s[:endpos]
    return s, max(0, pos)


def match(p, s, pos=0, endpos=None):
    s, pos = _range(s, pos, endpos)
    return Matcher(p, s).at(pos, {})


def fullmatch(p, s, pos=0, endpos=None):
    s, pos = _range(s, pos, endpos)
    m = Matcher(p, s)
    for end, g in m.seq(list(m.tree), 0, pos, {}):
        if end == len(m.chars):
            g = dict(g)
            g[0] = (pos, end)
            r = Match(p, s, g, dict(p.groupindex))
            r.lastindex = g.get('last')
            return r


def search(p, s, pos=0, endpos=None):
    return next(finditer(p, s, pos, endpos), None)


def finditer(p, s, pos=0, endpos=None):
    s, pos = _range(s, pos, endpos)
    m = Matcher(p, s)
    advance = False         # the next match may not be empty at pos
    while pos <= len(m.chars):
        r = None
        for i in range(pos, len(m.chars) + 1):
            r = m.at(i, {}, advance and i == pos)
            if r:
                break
        if not r:
            return
        yield r
        pos = r.end()
        advance = r.end() == r.start()


def findall(p, s, pos=0, endpos=None):
    r = []
    for m in finditer(p, s, pos, endpos):
        if not p.groups:
            r.append(m.group())
        elif p.groups == 1:
            r.append(m._text(1, ''))
        else:
            r.append(m.groups(''))
    return r


def _expand(m, template):
    template = concrete(template)
    out = []
    i = 0
    while i < len(template):
        c = template[i]
        if c == '\\' and i + 1 < len(template):
            d = template[i + 1]
            i += 2
            if d.isdigit() and d != '0':
                out.extend(chars_of(m._text(int(d), '')))
            elif d == 'g':
                j = template.index('>', i)
                name = template[i + 1:j]
                out.extend(chars_of(m._text(int(name) if name.isdigit() else name, '')))
                i = j + 1
            elif d == '\\':
                out.append('\\')
            elif d == 'n':
                out.append('\n')
            elif d == 't':
                out.append('\t')
            else:
                raise Unsupported('template')
            continue
        out.append(c)
        i += 1
    return mk_str(out)


def subn(p, repl, s, count=0):
    chars = chars_of(s)
    out = []
    pos = n = 0
    for m in finditer(p, s):
        if count and n >= count:
            break
        out.extend(chars[pos:m.start()])
        out.extend(chars_of(repl(m) if callable(repl) else _expand(m, repl)))
        pos = m.end()
        n += 1
    out.extend(chars[pos:])
    return mk_str(out), n


def sub(p, repl, s, count=0):
    return subn(p, repl, s, count)[0]


def split(p, s, maxsplit=0):
    r = []
    pos = n = 0
    for m in finditer(p, s):
        if maxsplit and n >= maxsplit:
            break
        r.append(s[pos:m.start()])
        r.extend(m.groups())
        pos = m.end()
        n += 1
    r.append(s[pos:])
    return r


FUNCTIONS = {f.__name__: f for f in (match, fullmatch, search, finditer, findall, sub, subn, split)}


def call(name, p, a, k):
    """Call the function of a pattern; raises Unsupported if it can't be done symbolically."""
    f = FUNCTIONS.get(name)
    where = {'sub': 1, 'subn': 1}.get(name, 0)
    if not f or len(a) <= where or not isinstance(a[where], SymStr) or any(isinstance(x, V.Sym) for i, x in enumerate(a) if i != where) \
            or any(isinstance(x, V.Sym) for x in k.values()):
        raise Unsupported(name)
    if p.flags & (re.IGNORECASE | re.ASCII | re.LOCALE):
        raise Unsupported('flags')
    _check(sre_parse.parse(p.pattern, p.flags & ~re.UNICODE))
    return f(p, *a, **k)


_SUPPORTED = {sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.BRANCH, sc.SUBPATTERN, sc.MAX_REPEAT, sc.MIN_REPEAT, sc.AT, sc.GROUPREF, sc.ASSERT, sc.ASSERT_NOT}


def _check(tree):
    for op, av in tree:
        if op not in _SUPPORTED:
            raise Unsupported(op)
        if op is sc.BRANCH:
            for b in av[1]:
                _check(b)
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported('flags')
            _check(av[3])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            _check(av[2])
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            if av[0] < 0 and len(set(av[1].getwidth())) > 1:
                raise Unsupported('look behind')
            _check(av[1])
