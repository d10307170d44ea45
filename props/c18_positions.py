"""C18: elements and their positions in the text."""
from quickly.dom import element
from vs.ctx import harness
from props import tree_common as X


class E(element.Element):
    """No text."""


class H(element.HeadElement):
    head = 'h'


class B(element.BlockElement):
    head = '<'
    tail = '>'


class Token:
    def __init__(self, pos, end):
        self.pos = pos
        self.end = end


class Plan:
    """A tree of elements with tokens at any position.

    kinds: E: no text, N: a new element that is not in the text, H: a head of one token, H2: of two tokens, B: head and tail,
    M: a block whose tail is missing in the text, P: new block
    """
    def __init__(self, ctx, kinds, n=None, gap=2, root=None):
        self.ctx = ctx
        self.s = s = X.shape(ctx, n or ctx.params['n'])
        self.gap = gap
        self.kinds = [ctx.pick('kind%d' % i, kinds if i else root or kinds) for i in range(s.n)]
        self.nodes = [None] * s.n
        self.pos = [None] * s.n         # None if there is no text at all
        self.end = [None] * s.n
        self.count = 0
        self.at = ctx.int('begin', 0, gap)
        self._make(0)

    def _token(self):
        ctx = self.ctx
        if self.count:
            self.at = self.at + ctx.int('gap%d' % self.count, 0, self.gap)
        t = Token(self.at, self.at + ctx.int('length%d' % self.count, 1, 2))
        self.count += 1
        self.at = t.end
        return t

    def _make(self, i):
        k = self.kinds[i]
        head = ()
        if k in ('H', 'B', 'M'):
            head = (self._token(),)
        elif k == 'H2':
            head = (self._token(), self._token())
        kids = [self._make(c) for c in self.s.kids[i]]
        tail = (self._token(),) if k == 'B' else ()
        cls = {'E': E, 'N': H, 'H': H, 'H2': H}.get(k, B)
        node = cls(*kids) if k in ('E', 'N', 'P') else cls.with_origin(head, tail, *kids)
        self.nodes[i] = node
        for c in self.s.kids[i]:
            if self.pos[c] is not None:
                if self.pos[i] is None:
                    self.pos[i] = self.pos[c]
                self.end[i] = self.end[c]
        if head:
            self.pos[i] = head[0].pos
            if self.end[i] is None:
                self.end[i] = head[-1].end
        if tail:
            self.end[i] = tail[-1].end
        return node

    def index(self, node):
        for i, n in enumerate(self.nodes):
            if n is node:
                return i


KINDS = ('E', 'H', 'B', 'M')


def sizes(*ns):
    return [dict(n=n) for n in ns]


@harness('C18', cases=sizes(1, 2, 3), thorough=sizes(1, 2, 3, 4), bounds='all trees of up to three (thorough: four) elements of seven kinds, tokens of length 1 or 2 with gaps of 0 to 2')
def element_extent(ctx):
    """The position of an element is where its text, or that of its descendants, starts, and its end where that ends."""
    p = Plan(ctx, ('E', 'N', 'H', 'H2', 'B', 'M', 'P'))
    for i, n in enumerate(p.nodes):
        for got, want, what in ((n.pos, p.pos[i], 'pos'), (n.end, p.end[i], 'end')):
            if want is None:
                ctx.check(got is None, what + ' of an element without text')
            else:
                ctx.check(got is not None and got == want, what)
    ctx.observe('extents', [[n.pos, n.end] for n in p.nodes])


@harness('C18', cases=sizes(2, 3, 4), thorough=sizes(2, 3, 4, 5), bounds='all trees of up to four (thorough: five) elements of four kinds, tokens of length 1 or 2 with gaps of 0 to 2, any position')
def child_at(ctx):
    """The child at a position is the one that has it, or else the one that ends there."""
    p = Plan(ctx, KINDS if ctx.params['n'] < 4 else ('E', 'H', 'B'))
    x = ctx.int('position', 0, 20)
    ctx.assume(x <= p.at + 1)
    i = 0
    got = p.nodes[i].find_child(x)
    kids = [c for c in p.s.kids[i] if p.pos[c] is not None]
    inside = {c: ctx.And(p.pos[c] <= x, x < p.end[c]) for c in kids}
    if got is None:
        ctx.check(ctx.And(*(ctx.Not(ctx.And(p.pos[c] <= x, x <= p.end[c])) for c in kids)), 'none only if no child touches the position')
    else:
        c = p.index(got)
        ctx.check(c in kids, 'a child with text')
        ctx.check(ctx.And(p.pos[c] <= x, x <= p.end[c]), 'the child touches the position')
        ctx.check(ctx.Or(inside[c], ctx.And(*(ctx.Not(inside[d]) for d in kids))), 'the one to the right is chosen')
    ctx.observe('found', None if got is None else p.index(got))


@harness('C18', cases=[dict(n=n, end=e) for n in (2, 3, 4) for e in (False, True) if n < 4 or not e], thorough=[dict(n=n, end=e) for n in (2, 3, 4, 5) for e in (False, True)],
         bounds='all trees of up to four (thorough: five; with an end: three and five) elements of three kinds, tokens of length 1 or 2 with gaps of 0 to 2, any position and end')
def descendants_at(ctx):
    """The descendants at a position, or that have a whole range, go down as long as they have it."""
    p = Plan(ctx, KINDS if ctx.params['n'] < 4 else ('E', 'H', 'B'))
    x = ctx.int('position', 0, 20)
    ctx.assume(x <= p.at + 1)
    e = None
    y = x
    if ctx.params['end']:
        e = ctx.int('end', 0, 20)
        ctx.assume(e <= p.at + 1)
        y = ctx.ite(e < x, x, e)
    found = [p.index(n) for n in p.nodes[0].find_descendants(x, e)]
    ctx.check(ctx.And(*(ctx.And(p.pos[c] <= x, y <= p.end[c]) for c in found)), 'all have the position, or the range')
    path = [0] + found
    ctx.check(all(p.s.parent[b] == a for a, b in zip(path, path[1:])), 'every next is a child')
    for a, b in zip(path, path[1:] + [None]):
        kids = [c for c in p.s.kids[a] if p.pos[c] is not None]
        inside = {c: ctx.And(p.pos[c] <= x, x < p.end[c]) for c in kids}
        if b is not None:
            ctx.check(ctx.Or(inside[b], ctx.And(*(ctx.Not(inside[d]) for d in kids))), 'the one to the right is chosen')
        else:
            for c in kids:
                ctx.check(ctx.Implies(inside[c], y > p.end[c]), 'it does not stop before the youngest')
                ctx.check(ctx.Implies(ctx.And(x == p.end[c], y == x), ctx.Or(*(inside[d] for d in kids))), 'it does not stop before the youngest that ends there')
    last = p.nodes[0].find_descendant(x, e)
    ctx.check((None if last is None else p.index(last)) == (found[-1] if found else None), 'find_descendant gives the last')
    ctx.observe('found', found)


@harness('C18', cases=sizes(2, 3, 4), thorough=sizes(2, 3, 4, 5), bounds='all trees of up to four (thorough: five) elements of four kinds, tokens of length 1 or 2 with gaps of 0 to 2, any position')
def descendant_beside(ctx):
    """The first descendant that starts at or right of a position, and the last that ends at or left of it."""
    p = Plan(ctx, KINDS if ctx.params['n'] < 4 else ('E', 'H', 'B'))
    x = ctx.int('position', 0, 20)
    ctx.assume(x <= p.at + 1)
    cand = [c for c in range(1, p.s.n) if p.pos[c] is not None]
    got = p.nodes[0].find_descendant_right(x)
    c = None if got is None else p.index(got)
    for d in cand:
        if d == c:
            ctx.check(p.pos[d] >= x, 'it starts at or right of the position')
        elif c is None or d < c:
            ctx.check(p.pos[d] < x, 'it is the first')
    ctx.check(c is None or c in cand, 'it has text')
    got = p.nodes[0].find_descendant_left(x)
    e = None if got is None else p.index(got)
    ctx.check(e is None or e in cand, 'it has text')
    for d in cand:
        if d == e:
            ctx.check(p.end[d] <= x, 'it ends at or left of the position')
        elif e is None or p.s.mpos[d] < p.s.mpos[e]:
            ctx.check(p.end[d] > x, 'it is the last')
    ctx.observe('found', [c, e])
