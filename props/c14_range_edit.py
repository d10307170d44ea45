"""C14: changing the tree through a range."""
from vs.ctx import harness
from props import tree_common as X
from props.tree_common import T, labels
from props.c13_range import ranges
from quickly.node import Range


def sizes(*ns, **k):
    return [dict(n=n, **k) for n in ns]


def locate(ctx, s, t, r, o):
    """Enter a node in the range and go to one of its children. Returns the node, its children and the index of the child."""
    p = ctx.size('p', 0, s.n - 1)
    if p != o.a and not o.visible(p):
        return None
    r.goto(t[p])
    r.enter()
    kids = s.kids[p]
    c = ctx.size('c', -1, max(-1, len(kids) - 1))
    if c >= 0:
        if not o.visible(kids[c]):
            return None
        r.index = c
    return p, kids, c


def bounds(s, o, p, kids):
    """The first and last index in the range, and whether there is a boundary in the node."""
    sb = o.start is not None and s.inside(o.lo, p) and o.start != o.a
    eb = o.end is not None and (o.hi == p or s.inside(o.hi, p))
    S = [o.lo in [k] + s.descendants(k) for k in kids].index(True) if sb else 0
    if not eb:
        E = len(kids) - 1
    elif o.hi == p:
        E = -1
    else:
        E = [o.hi in [k] + s.descendants(k) for k in kids].index(True)
    return sb, eb, S, E


@harness('C14', cases=[dict(n=n, new=k, child=c) for n in (2, 3, 4) for k in (0, 1, 2) for c in (0, 1) if k or not c],
         thorough=[dict(n=n, new=k, child=c) for n in (2, 3, 4, 5) for k in (0, 1, 2, 3) for c in (0, 1) if k or not c],
         bounds='all trees of up to four (thorough: five) nodes, any range, any current node, any slice inside, before or after the range replaced '
         'with up to two (thorough: three) nodes with or without a child')
def range_slice(ctx):
    """After replacing, inserting or deleting nodes the range has the same other nodes, and iterating goes on."""
    s, t, r, o = ranges(ctx, ctx.params['n'], True)
    if o.empty:
        return
    where = locate(ctx, s, t, r, o)
    if where is None:
        return
    p, kids, c = where
    sb, eb, S, E = bounds(s, o, p, kids)
    L = len(kids)
    i, j = ctx.size('i', 0, L), ctx.size('j', 0, L)
    if j < i:
        return
    k = ctx.params['new']
    new = [T('n%d' % x, *([T('c%d' % x)] if ctx.params['child'] else [])) for x in range(k)]
    if sb and j <= S or eb and i > E:
        inside = False
    elif S <= i and j <= E + 1 and not (i == j and (sb and i == S or eb and i == E + 1)):
        inside = True
    else:
        return      # across a boundary
    visible = lambda x: o.visible(x) if isinstance(x, int) else inside and not (x[0] == 'c' and x[1:] == str(k - 1) and eb and j == E + 1)
    removed = set()
    for x in kids[i:j]:
        removed.update([x] + s.descendants(x))
    # the expected nodes, in document order
    def walk(x):
        yield x
        ks = s.kids[x]
        for n, y in enumerate(ks[:i] if x == p else ks):
            yield from walk(y)
        if x == p:
            for n in range(k):
                yield 'n%d' % n
                if ctx.params['child']:
                    yield 'c%d' % n
            for y in ks[j:]:
                yield from walk(y)
    order = list(walk(0))
    want = [x for x in order if visible(x)]
    wantkids = kids[:i] + ['n%d' % n for n in range(k)] + kids[j:]
    # what is still to come in this level
    if c < 0:
        rest = wantkids
    elif c >= j:
        rest = wantkids[c + k - (j - i) + 1:]
    elif c >= i:
        rest = wantkids[i + k:]
    else:
        rest = wantkids[c + 1:]
    other = r.copy()
    if ctx.flag('delete') if not k else False:
        del r[i:j]
    else:
        r[i:j] = new
    ctx.check(labels([t[0]] + list(t[0].descendants())) == order, 'the changed tree')
    ctx.check(all(n.parent is t[p] for n in new), 'the parent of the new nodes')
    ctx.check(labels(r) == [x for x in rest if visible(x)], 'iteration continues with the next node')
    f = r.copy()
    if f:
        ctx.check(labels(f.descendants()) == want, 'a fresh range has the same nodes and the new ones')
    else:
        ctx.check(not [x for x in want if x >= o.lo] if all(isinstance(x, int) for x in want) else False, 'not empty if any node is left')
    r.reset()
    if r:
        ctx.check(labels(r.descendants()) == want, 'the range has the same nodes and the new ones')
        every = labels(r.nodes())
        ctx.check(every == [x for x in want if x in every] and all(x in every for x in want if not isinstance(x, int) or x >= o.lo), 'from the start node')
    ctx.check(other.start_trail == (s.trail(o.start, o.a) if o.start is not None else None) and
              other.end_trail == (s.trail(o.end, o.a) if o.end is not None else None), 'a copy made before is not changed')
    ctx.observe('want', want)


@harness('C14', cases=sizes(2, 3, 4), thorough=sizes(2, 3, 4, 5), bounds='all trees of up to four (thorough: five) nodes, any range, any current node, '
         'any child replaced by index, or the current node replaced or deleted')
def range_replace(ctx):
    """A replaced node stays in the range: with its children, but without them if it was on the end boundary."""
    s, t, r, o = ranges(ctx, ctx.params['n'], True)
    if o.empty:
        return
    where = locate(ctx, s, t, r, o)
    if where is None:
        return
    p, kids, c = where
    sb, eb, S, E = bounds(s, o, p, kids)
    new = T('n', T('c'))
    how = ctx.pick('what', ['index', 'node', 'negative', 'delete'])
    if how == 'node':
        if c >= 0:
            i = c
        elif p == o.a:
            try:
                r.node = new
            except ValueError:
                return
            ctx.check(False, 'the ancestor can not be replaced')
            return
        else:
            # the node that was just entered
            i = s.index(p)
            p = s.parent[p]
            kids = s.kids[p]
            sb, eb, S, E = bounds(s, o, p, kids)
            c = i
        r.node = new
    else:
        if not kids:
            return
        i = ctx.size('i', 0, len(kids) - 1)
        if how == 'index':
            r[i] = new
        elif how == 'negative':
            r[i - len(kids)] = new
        else:
            if not S <= i <= E:
                return
            if ctx.flag('negative'):
                del r[i - len(kids)]
            else:
                del r[i]
    if how == 'delete':
        ctx.check(labels(t[p]) == kids[:i] + kids[i+1:], 'the node is deleted')
        rest = kids[i+1:] if c == i else [x for n, x in enumerate(kids) if n > c and n != i]
        ctx.check(labels(r) == [x for x in rest if o.visible(x)], 'iteration continues with the next node')
        ctx.observe('rest', rest)
        return
    inside = S <= i <= E
    wantkids = kids[:i] + ['n'] + kids[i+1:]
    visible = lambda x: o.visible(x) if isinstance(x, int) else inside and not (x == 'c' and eb and i == E)
    def walk(x):
        yield x
        if x == 'n':
            yield 'c'
        elif x != 'c':
            for y in (wantkids if x == p else s.kids[x]):
                yield from walk(y)
    order = list(walk(0))
    want = [x for x in order if visible(x)]
    ctx.check(labels([t[0]] + list(t[0].descendants())) == order, 'the changed tree')
    ctx.check(new.parent is t[p], 'the parent of the new node')
    ctx.check(labels(r) == [x for x in wantkids[c+1:] if visible(x)], 'iteration continues with the next node')
    r.reset()
    ctx.check(labels(r.descendants()) == want, 'the range has the same nodes and the new one')
    ctx.check(labels(r.copy().descendants()) == want, 'a fresh range has the same nodes and the new one')
    ctx.observe('want', want)


@harness('C14', cases=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)],
         bounds='a node with up to three (thorough: four) children, any range of them, any of them deleted, replaced by more, or kept while iterating')
def range_loop(ctx):
    """Editing every node while iterating sees every node of the range exactly once."""
    n = ctx.params['n']
    root = T('r', *(T(i) for i in range(n)))
    a, b = ctx.size('a', 0, n - 1), ctx.size('b', 0, n - 1)
    if b < a:
        return
    r = ctx.pick('range', [lambda: Range(root, [a], [b]), lambda: Range(root, [a]), lambda: Range(root, None, [b]), lambda: Range(root)])()
    lo, hi = (r.start_trail or [0])[0], (r.end_trail or [n - 1])[0]
    act = ctx.ints('act', n, 0, 4)
    seen, want, inside = [], list(range(lo)), []
    for x in r:
        seen.append(x.label)
        i = r.index
        what = act[x.label]
        if what == 1:
            del r[i]
            new = []
        elif what == 2:
            r[i:i+1] = [T(x.label * 10 + 100), T(x.label * 10 + 101)]
            new = [x.label * 10 + 100, x.label * 10 + 101]
        elif what == 3:
            r[i] = T(x.label + 200)
            new = [x.label + 200]
        elif what == 4:
            r.node = T(x.label + 300)
            new = [x.label + 300]
        else:
            new = [x.label]
        want += new
        inside += new
    want += range(hi + 1, n)
    ctx.check(seen == list(range(lo, hi + 1)), 'every node once')
    ctx.check(labels(root) == want, 'the changed children')
    r.reset()
    ctx.check(labels(r.descendants()) == inside, 'the range has the nodes it had, and the new ones')
    ctx.check(bool(r) == bool(inside), 'empty if there are none')
    ctx.observe('inside', inside)
