"""C13: what is in a range of the tree."""
from vs.ctx import harness
from props import tree_common as X
from props.tree_common import T, labels
from quickly.node import Range


class Oracle:
    """What a range has, by document order."""
    def __init__(self, s, a, start, end):
        self.s = s
        self.a = a
        self.lo = a + 1 if start is None or start == a else start
        self.hi = s.end[a] - 1 if end is None else end
        self.start, self.end = start, end
        self.empty = self.hi < self.lo

    def visible(self, j):
        """Whether the node or anything in it is in the range."""
        return not self.empty and self.s.inside(j, self.a) and j <= self.hi and self.s.end[j] > self.lo

    def inside(self, j):
        """Whether the node and all in it is in the range; the end node may have other children."""
        return self.s.inside(j, self.a) and self.lo <= j and (j == self.hi and self.end is not None or self.s.end[j] - 1 <= self.hi)

    def whole(self, j):
        """Whether all nodes below are visible, and the node too."""
        return all(self.visible(k) for k in self.s.descendants(j))


def ranges(ctx, n, one=False):
    """A range in any tree of n nodes, made from any two nodes."""
    s = X.shape(ctx, n)
    t = X.build(s)
    i, j = ctx.size('start', -1, n - 1), ctx.size('end', -1, n - 1)
    i, j = None if i < 0 else i, None if j < 0 else j
    root = ctx.flag('root')
    if i is None and j is None:
        r, o = Range(t[0]), Oracle(s, 0, None, None)
    else:
        a, b = None if i is None else t[i], None if j is None else t[j]
        if a and not one and ctx.flag('how'):
            r = a.range(b, root)
        else:
            r = Range.from_nodes(a, b, root)
        o = Oracle(s, 0 if root or i is None or j is None else s.common(i, j), i, j)
    return s, t, r, o


def sizes(*ns):
    return [dict(n=n) for n in ns]


def split(what, *ns):
    return [dict(n=n, what=w) for n in ns for w in what]


@harness('C13', cases=sizes(1, 2, 3, 4, 5), thorough=sizes(1, 2, 3, 4, 5, 6), bounds='all trees of up to five (thorough: six) nodes, any start and end node or none')
def range_contents(ctx):
    """Which nodes are in a range, completely or partly."""
    s, t, r, o = ranges(ctx, ctx.params['n'])
    a = o.a
    ctx.check(r.ancestor() is t[a], 'the ancestor')
    ctx.check(bool(r) == (not o.empty), 'an empty range is false')
    ctx.check(r.start_node() is (None if o.start is None else t[o.start]), 'the start node, if any')
    ctx.check(r.end_node() is (None if o.end is None else t[o.end]), 'the end node, if any')
    for j in range(s.n):
        if j != a:
            ctx.check((t[j] in r) == (not o.empty and o.inside(j)), 'a node is in the range if all of it is')
            ctx.check(r.intersects(t[j]) == o.visible(j), 'a node intersects if any of it is in the range')
            ctx.check((r & t[j]) == o.visible(j), 'a node intersects if any of it is in the range')
    other = T('other')
    ctx.check(other not in r and not r.intersects(other) and not r.goto(other), 'a node of another tree is not in the range')
    if not o.empty:
        ctx.check((t[a] in r) == o.whole(a), 'the ancestor is in the range if all nodes are')
        ctx.check(r.is_full() == o.whole(a), 'a range without boundaries is full')
        ctx.check(bool(r.intersects(t[a])), 'the ancestor intersects')
    ctx.observe('visible', [o.visible(j) for j in range(s.n)])


ITERATION = ['descendants', 'reverse', 'nodes', 'children', 'iter', 'extract', 'copy', 'walk', 'search']


@harness('C13', cases=split(ITERATION, 1, 2, 3, 4), thorough=split(ITERATION, 1, 2, 3, 4, 5, 6), bounds='all trees of up to four (thorough: six) nodes, any start and end node or none')
def range_iteration(ctx):
    """Iterating gives all nodes in the range, in order; a copy and an extracted tree have the same."""
    s, t, r, o = ranges(ctx, ctx.params['n'])
    a = o.a
    all_ = [j for j in range(s.n) if o.visible(j)]
    what = ctx.params['what']
    if what == 'descendants':
        for k in range(2):
            ctx.check(labels(r.descendants()) == all_, 'all nodes in the range')
            ctx.check(r.node is t[a] and r.depth() == 0, 'after that, the ancestor is the current node')
    elif what == 'reverse':
        ctx.check(labels(r.descendants(True)) == [j for j in s.mirror if o.visible(j)], 'all nodes from the end')
    elif what == 'nodes':
        ctx.check(labels(r.nodes()) == [j for j in all_ if j >= o.lo], 'all nodes from the start node')
    elif what == 'children':
        ctx.check(labels(r.children()) == [j for j in s.kids[a] if o.visible(j)], 'the children in the range')
        ctx.check(labels(r.children(True)) == [j for j in s.kids[a] if o.visible(j)][::-1], 'the children, reversed')
    elif what == 'iter':
        got = []
        for x in r:
            got.append(x.label)
            ctx.check(r.node is x and r.index == s.index(x.label), 'the current node')
        ctx.check(got == [j for j in s.kids[a] if o.visible(j)], 'the children in the range')
        ctx.check(labels(r) == [], 'exhausted')
        r.reset()
        ctx.check(r.node is t[a], 'reset')
        ctx.check(labels(r.reversed()) == got[::-1], 'the children, reversed')
    elif what == 'extract':
        x = r.extract_tree()
        ctx.check(labels([x] + list(x.descendants())) == [a] + all_, 'the nodes of the extracted tree')
        for n in x.descendants():
            ctx.check(n.parent.label == s.parent[n.label], 'the structure of the extracted tree')
            ctx.check(n is not t[n.label], 'the extracted tree is a copy')
        ctx.check([j for j in s.descendants(a)] == labels(t[a].descendants()), 'the tree is as it was')
    elif what == 'copy':
        for _ in zip(range(ctx.size('steps', 0, 2)), r.descendants()):
            pass
        c = r.copy()
        ctx.check(c.node is t[a] and labels(c.descendants()) == all_, 'the copy starts at the beginning')
    elif what == 'walk':
        # with enter and leave
        got = []
        def walk(r):
            for x in r:
                got.append(x.label)
                d = r.enter()
                ctx.check(d == len(r.trail()) == r.depth(), 'the depth on entering')
                walk(r)
                ctx.check(r.leave() == d, 'the depth on leaving')
                ctx.check(r.node is x, 'back at the node')
        walk(r)
        ctx.check(got == all_, 'all nodes in the range')
    else:
        flag = [ctx.bool('match%d' % i) for i in range(s.n)]
        found = labels(r.filter(lambda n: flag[n.label]))
        ctx.check(found == [j for j in all_ if j in found], 'the order, and each node once')
        for j in all_:
            if any(p in found for p in s.ancestors(j)):
                ctx.check(j not in found, 'nothing below a found node')
            else:
                ctx.check(flag[j] if j in found else ctx.Not(flag[j]), 'found if it matches')
    ctx.observe('visible', all_)


CURRENT = ['state', 'forward', 'backward', 'ancestors', 'children', 'here', 'descendants', 'upto', 'enter', 'extract']


@harness('C13', cases=split(CURRENT, 2, 3, 4), thorough=split(CURRENT, 2, 3, 4, 5, 6), bounds='all trees of up to four (thorough: six) nodes, any start and end node or none, any current node')
def range_current(ctx):
    """What is around a current node in the range."""
    s, t, r, o = ranges(ctx, ctx.params['n'])
    a = o.a
    if o.empty:
        return
    c = ctx.size('current', 0, s.n - 1)
    ok = c == a or o.visible(c)
    ctx.check(r.goto(t[c]) == ok, 'going to a node succeeds if any of it is in the range')
    if not ok:
        ctx.check(r.node is t[a], 'the current node does not change')
        return
    V = lambda js: [j for j in js if o.visible(j)]
    n = t[c]
    ctx.check(r.node is n, 'the current node')
    ctx.check(r.trail() == s.trail(c, a), 'the trail')
    ctx.check(r.index == (s.index(c) if c != a else -1), 'the index')
    kids = V(s.kids[c])
    what = ctx.params['what']
    if what == 'state':
        ctx.check(r.in_range() == o.whole(c), 'whether all of the node is in the range')
        if c != a:
            ctx.check(r.depth() == s.d[c] - s.d[a] - 1, 'the iteration depth')
            sib = V(s.siblings(c))
            ctx.check(r.start() == s.index(sib[0]) and r.end() == s.index(sib[-1]), 'first and last index')
            ctx.check(r[s.index(c)] is n and list(r[0:9]) == list(t[s.parent[c]]), 'nodes by index')
            k = ctx.size('index', 0, 3)
            try:
                r.index = k
            except ValueError:
                ctx.check(not r.start() <= k <= r.end(), 'an index in the range')
            else:
                ctx.check(r.start() <= k <= r.end() and r.node is t[s.parent[c]][k], 'selecting a node by index')
    elif what == 'forward':
        ctx.check(labels(r.forward()) == (V(range(s.end[c], s.end[a])) if c != a else V(range(s.n))), 'nodes after the node')
    elif what == 'backward':
        order = s.backward(c, a) if c != a else s.rdescendants(a)
        ctx.check(labels(r.backward()) == V(order), 'nodes before the node, from the end')
    elif what == 'upto':
        if c == a:
            return
        p = [x for x in s.ancestors(c) if x == a or s.inside(x, a)]
        p = p[ctx.size('upto', 0, len(p) - 1)]
        if ctx.flag('backward'):
            ctx.check(labels(r.backward(t[p])) == V(s.backward(c, p)), 'nodes before the node, in an ancestor')
        else:
            ctx.check(labels(r.forward(t[p])) == V(s.forward(c, p)), 'nodes after the node, in an ancestor')
    elif what == 'ancestors':
        ctx.check(labels(r.ancestors()) == [x for x in s.ancestors(c) if x == a or s.inside(x, a)], 'the ancestors in the range')
        ctx.check(r.node is t[a], 'ends at the ancestor')
    elif what == 'children':
        ctx.check(labels(r.children()) == kids, 'the children in the range')
        ctx.check(r.node is n, 'back at the node')
        ctx.check(labels(r.children(True)) == kids[::-1], 'the children in the range, reversed')
        ctx.check(r.node is n, 'back at the node')
        ctx.check(labels(r / T) == kids and labels(r ^ T) == [], 'searching the children')
    elif what == 'here':
        h = r.from_here()
        ctx.check(h.ancestor() is n, 'the new range starts here')
        ctx.check(labels(h.descendants()) == V(s.descendants(c)), 'the nodes in the new range')
        ctx.check(labels(h.descendants(True)) == V(s.rdescendants(c)), 'the nodes in the new range')
        for j in s.descendants(c):
            ctx.check(h.intersects(t[j]) == o.visible(j), 'what intersects with the new range')
        ctx.check(r.node is n, 'the range does not change')
    elif what == 'descendants':
        ctx.check(labels(r.descendants()) == V(s.descendants(c)), 'the descendants in the range')
        ctx.check(r.node is n, 'back at the node')
        ctx.check(labels(r // T) == V(s.descendants(c)), 'searching the descendants')
        ctx.check(labels(r.descendants(True)) == V(s.rdescendants(c)), 'the descendants in the range, reversed')
    elif what == 'enter':
        if c == a:
            return
        ctx.check(r.enter() == s.d[c] - s.d[a], 'the depth')
        ctx.check(r.node is n, 'the node does not change on entering')
        ctx.check(r.trail() == s.trail(c, a) and r.index == s.index(c), 'the trail does not change on entering')
        ctx.check(r.in_range() == o.whole(c), 'whether all of the node is in the range')
        got = labels(r)
        ctx.check(got == kids, 'the children in the range')
        ctx.check(r.leave() == s.d[c] - s.d[a], 'the depth')
        ctx.check(r.node is n, 'back at the node')
    else:
        x = r.extract_tree()
        ctx.check(labels([x] + list(x.descendants())) == [c] + V(s.descendants(c)), 'the nodes of the extracted tree')
        ctx.check(all(y.parent.label == s.parent[y.label] for y in x.descendants()), 'the structure of the extracted tree')
    ctx.observe('visible', V(range(s.n)))


@harness('C13', cases=[dict(depth=d, w=w) for d, w in ((1, 4), (2, 2), (2, 3))], thorough=[dict(depth=d, w=w) for d, w in ((1, 6), (2, 2), (2, 3), (3, 2))],
         bounds='full trees of width up to 4 (thorough: 6) and depth up to 2 (thorough: 3), any trails')
def range_trails(ctx):
    """A range made with any trails has the nodes between them."""
    w, depth = ctx.params['w'], ctx.params['depth']
    count = 0
    def tree(d):
        nonlocal count
        n = T(count)
        count += 1
        if d:
            for i in range(w):
                n.append(tree(d - 1))
        return n
    root = tree(depth)
    ls, le = ctx.size('slen', 1, depth), ctx.size('elen', 1, depth)
    start, end = ctx.ints('s', ls, 0, w - 1), ctx.ints('e', le, 0, w - 1)
    r = Range(root, list(start), list(end))
    pad = lambda t: list(t) + [-1] * (depth - len(t))
    def le_(a, b):
        """a <= b for padded trails."""
        c = True
        for x, y in reversed(list(zip(pad(a), pad(b)))):
            c = ctx.Or(x < y, ctx.And(x == y, c))
        return c
    ctx.check(ctx.Not(ctx.Or(bool(r), le_(start, end))) if not bool(r) else le_(start, end), 'empty if the end is before the start')
    nodes = [root] + list(root.descendants())
    n = nodes[ctx.size('node', 1, len(nodes) - 1)]
    t = n.trail()
    last = lambda t: list(t) + [w] * (depth - len(t))    # after all in it
    same = lambda a, b: ctx.And(*[x == y for x, y in zip(pad(a), pad(b))])
    is_in = n in r
    want = ctx.And(le_(start, t), le_(t, end), ctx.Or(le_(last(t), end) if len(t) < depth else True, same(t, end)))
    if len(t) < depth:
        # the last node in it must be in the range
        deepest = list(t) + [w - 1] * (depth - len(t))
        want = ctx.And(le_(start, t), ctx.Or(same(t, end), le_(deepest, end)))
    ctx.check(want if is_in else ctx.Not(want), 'a node is in the range')
    hit = r.intersects(n)
    deepest = list(t) + [w - 1] * (depth - len(t))
    want = ctx.And(le_(start, end), le_(t, end), le_(start, deepest))
    ctx.check(want if hit else ctx.Not(want), 'a node intersects with the range')
    seen = any(x is n for x in r.descendants())
    ctx.check(want if seen else ctx.Not(want), 'a node is seen when iterating')
    ctx.observe('seen', [is_in, hit, seen])
