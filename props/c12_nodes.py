"""C12: the node tree."""
from vs.ctx import harness
from props import tree_common as X
from props.tree_common import T, U, labels


def sizes(*ns):
    return [dict(n=n) for n in ns]


def lab(n):
    return None if n is None else n.label


@harness('C12', cases=sizes(1, 2, 3, 4, 5, 6, 7), thorough=sizes(*range(1, 10)), bounds='all trees of up to seven (thorough: nine) nodes, every node')
def node_navigation(ctx):
    """Parents, siblings, trails, depth, height, and the order of iteration."""
    s = X.shape(ctx, ctx.params['n'])
    t = X.build(s)
    i = ctx.size('node', 0, s.n - 1)
    n = t[i]
    ctx.check(lab(n.parent) == s.parent[i], 'parent')
    ctx.check(n.root() is t[0], 'root')
    ctx.check(labels(n) == s.kids[i], 'children')
    ctx.check(bool(n), 'a node is true')
    ctx.check(labels(n.ancestors()) == s.ancestors(i), 'ancestors')
    ctx.check([(a.label, k) for a, k in n.ancestors_with_index()] ==
              [(s.parent[j], s.index(j)) for j in [i] + s.ancestors(i) if j], 'ancestors with index')
    ctx.check(n.trail() == s.trail(i), 'trail')
    ctx.check(n.depth() == s.d[i], 'depth')
    ctx.check(n.height() == s.height(i), 'height')
    ctx.check(n.is_root() == (i == 0), 'is_root')
    sib = s.siblings(i)
    k = s.index(i)
    if i:
        ctx.check(n.is_first() == (k == 0), 'is_first')
        ctx.check(n.is_last() == (k == len(sib) - 1), 'is_last')
        ctx.check(n.parent.index(n) == k, 'index')
    ctx.check(lab(n.right_sibling()) == (sib[k+1] if k + 1 < len(sib) else None), 'right sibling')
    ctx.check(lab(n.left_sibling()) == (sib[k-1] if k else None), 'left sibling')
    ctx.check(labels(n.right_siblings()) == sib[k+1:], 'right siblings')
    ctx.check(labels(n.left_siblings()) == sib[:k][::-1], 'left siblings')
    ctx.check(labels(n.descendants()) == s.descendants(i), 'descendants')
    ctx.check(labels(n.descendants(True)) == s.rdescendants(i), 'descendants, reversed')
    ctx.check(labels(n.forward()) == s.forward(i), 'forward')
    ctx.check(labels(n.backward()) == s.backward(i), 'backward')
    for u in s.ancestors(i):
        ctx.check(labels(n.forward(t[u])) == s.forward(i, u), 'forward in an ancestor')
        ctx.check(labels(n.backward(t[u])) == s.backward(i, u), 'backward in an ancestor')
    ctx.observe('trail', n.trail())


@harness('C12', cases=sizes(2, 3, 4, 5), thorough=sizes(2, 3, 4, 5, 6, 7), bounds='all trees of up to five (thorough: seven) nodes, every two nodes')
def node_pairs(ctx):
    """Common ancestors, and trails tell which node is first."""
    s = X.shape(ctx, ctx.params['n'])
    t = X.build(s)
    i, j = ctx.size('a', 0, s.n - 1), ctx.size('b', 0, s.n - 1)
    a, b = t[i], t[j]
    c = s.common(i, j)
    ctx.check(a.common_ancestor(b) is t[c], 'common ancestor')
    x, y, z = a.common_ancestor_with_trail(b)
    ctx.check(x is t[c], 'common ancestor with trail')
    ctx.check(y == s.trail(i, c), 'trail to the node')
    ctx.check(z == s.trail(j, c), 'trail to the other')
    ctx.check((a.trail() < b.trail()) == (i < j), 'trails are in document order')
    ctx.check((a == b) == (i == j) and (a != b) == (i != j), 'nodes are compared by identity')
    other = T('other', T('child'))
    ctx.check(a.common_ancestor(other[0]) is None, 'no common ancestor')
    ctx.check(a.common_ancestor_with_trail(other[0]) == (None, None, None), 'no common ancestor')
    ctx.observe('c', c)


WHAT = ['/', '//', '<<', '>', '<', '^', 'tuple', 'instances', 'filter', 'forward', 'backward', 'reverse']


@harness('C12', cases=[dict(n=n, what=w) for n in (3, 4, 5, 6) for w in WHAT], thorough=[dict(n=n, what=w) for n in (3, 4, 5, 6, 7) for w in WHAT],
         bounds='all trees of up to six (thorough: seven) nodes, any set of nodes that match')
def node_search(ctx):
    """Searching finds exactly the nodes that match, in order, and skips what is below a found node if asked."""
    s = X.shape(ctx, ctx.params['n'])
    match = [ctx.bool('match%d' % i) for i in range(s.n)]

    class Meta(type):
        def __instancecheck__(cls, node):
            return bool(match[node.label])

    class M(metaclass=Meta):
        """The class of the nodes that match."""

    t = X.build(s)
    i = ctx.size('node', 0, s.n - 1)
    n = t[i]
    what = ctx.params['what']
    top = False
    invert = False
    p = lambda x: match[x.label]
    if what == '/':
        found, order = n / M, s.kids[i]
    elif what == '//':
        found, order = n // M, s.descendants(i)
    elif what == '<<':
        found, order = n << M, s.ancestors(i)
    elif what == '>':
        found, order = n > M, s.forward(i)
    elif what == '<':
        found, order = n < M, s.backward(i)
    elif what == '^':
        found, order, invert = n ^ M, s.kids[i], True
    elif what == 'tuple':
        found, order = n // (str, M), s.descendants(i)
    else:
        top = True
        if what == 'instances':
            found, order = n.instances_of(M), s.descendants(i)
        elif what == 'filter':
            found, order = n.filter(p), s.descendants(i)
        elif what == 'forward':
            found, order = n.filter_descendants(p, n.forward()), s.forward(i)
        elif what == 'backward':
            found, order = n.filter_descendants(p, n.backward()), s.backward(i)
        else:
            found, order = n.filter_descendants(p, n.descendants(True)), s.rdescendants(i)
    found = labels(found)
    ctx.check(found == [j for j in order if j in found], 'the order, and each node once')
    for j in order:
        if top and any(a in found for a in s.ancestors(j)):
            ctx.check(j not in found, 'nothing below a found node')
        else:
            want = ctx.Not(match[j]) if invert else match[j]
            ctx.check(want if j in found else ctx.Not(want), 'a node is found if and only if it matches')
    ctx.observe('found', found)


@harness('C12', cases=sizes(3, 4), bounds='all trees of up to four nodes of two classes, compared with any instance')
def node_search_equal(ctx):
    """Searching with an instance finds the nodes of its very class with an equal body."""
    s = X.shape(ctx, ctx.params['n'])
    u = [ctx.flag('class%d' % i) for i in range(s.n)]
    t = X.build(s, [U if x else T for x in u])
    body = [ctx.int('body%d' % i, 0, 1) for i in range(s.n)]
    for x in t:
        x.label = body[x.label]
    key = ctx.int('key', 0, 1)
    cls = ctx.pick('cls', [T, U])
    found = [t.index(x) for x in t[0] // cls(key)]
    ctx.check(found == sorted(set(found)), 'in order')
    for j in range(1, s.n):
        if u[j] != (cls is U):
            ctx.check(j not in found, 'only the very class')
        else:
            ctx.check((body[j] == key) if j in found else ctx.Not(body[j] == key), 'found if the body is equal')
    ctx.observe('found', found)


@harness('C12', cases=[dict(n=n, op=o) for n in (0, 1, 3) for o in ('append', 'extend', 'insert', 'set', 'slice', 'replace', 'take', 'del', 'init', 'remove')],
         bounds='nodes with up to three children, any index and slice, up to two new nodes')
def node_edit(ctx):
    """Adding nodes sets their parent, and the children are those of a list."""
    n = ctx.params['n']
    op = ctx.params['op']
    kids = [T(i) for i in range(n)]
    node = T('p', *kids)
    root = T('r', node)
    want = list(range(n))
    new = [T('x'), T('y')][:ctx.size('new', 0, 2)]
    want_new = [c.label for c in new]
    gone = None
    i, j = ctx.int('i', -4, 4), ctx.int('j', -4, 4)
    if op == 'append':
        for c in new:
            node.append(c)
        want += want_new
    elif op == 'extend':
        node.extend(ctx.pick('how', [new, tuple(new), (c for c in new)]))
        want += want_new
    elif op == 'insert':
        i = ctx.concrete(i)
        for c in new:
            node.insert(i, c)
            want.insert(i, c.label)
    elif op == 'set':
        i = ctx.concrete(i)
        if not -n <= i < n or not new:
            return
        node[i] = new[0]
        want[i] = 'x'
        new = new[:1]
    elif op == 'slice':
        i, j = ctx.concrete(i), ctx.concrete(j)
        k = slice(ctx.pick('open', [i, None]), j)
        node[k] = ctx.pick('how', [new, (c for c in new)])
        want[k] = want_new
    elif op == 'replace':
        i = ctx.concrete(i)
        if not 0 <= i < n or not new:
            return
        kids[i].replace_with(new[0])
        want[i] = 'x'
        new = new[:1]
    elif op == 'take':
        i, j = ctx.concrete(i), ctx.pick('to', [ctx.concrete(j), None])
        gone = labels(node.take(i, j))
        ctx.check(gone == want[i:j], 'the taken nodes')
        del want[i:j]
        new = []
    elif op == 'del':
        i = ctx.concrete(i)
        if not -n <= i < n:
            return
        del node[i]
        del want[i]
        new = []
    elif op == 'remove':
        i = ctx.concrete(i)
        if not 0 <= i < n:
            return
        node.remove(kids[i])
        del want[i]
        new = []
    elif op == 'init':
        node = T('p', *new)
        want = want_new
    ctx.check(labels(node) == want, 'the children')
    ctx.check(all(c.parent is node for c in node), 'the parent of all children')
    ctx.check(all(c in node for c in new), 'the new nodes themselves')
    if op != 'init':
        ctx.check(node.parent is root, 'the parent of the node')
        c = T('q')
        ctx.check(c.parent is None, 'a new node has no parent')
        c.parent = node
        ctx.check(c.parent is node, 'setting the parent')
        if ctx.flag('delete'):
            del c.parent
        else:
            c.parent = None
        ctx.check(c.parent is None, 'removing the parent')
    ctx.observe('children', labels(node))


@harness('C12', cases=sizes(1, 2, 3, 4, 5), thorough=sizes(1, 2, 3, 4, 5, 6), bounds='all trees of up to five (thorough: six) nodes, one change')
def node_copy(ctx):
    """A copy is equal and shares no node; a tree with any difference is not equal."""
    s = X.shape(ctx, ctx.params['n'])
    t = X.build(s)
    i = ctx.size('node', 0, s.n - 1)
    c = t[i].copy()
    ctx.check(c.parent is None, 'a copy has no parent')
    ctx.check(labels(c.descendants()) == s.descendants(i), 'a copy has all the nodes')
    ctx.check(all(x not in t for x in [c] + list(c.descendants())), 'a copy has no node of the original')
    ctx.check([x.depth() for x in c.descendants()] == [s.d[j] - s.d[i] for j in s.descendants(i)], 'a copy has the same structure')
    ctx.check(c.equals(t[i]) and t[i].equals(c), 'a copy is equal')
    ctx.check(len(t[i].copy(False)) == 0 and t[i].copy(False).label == i, 'a copy without children')
    all_ = [c] + list(c.descendants())
    x = all_[ctx.size('changed', 0, len(all_) - 1)]
    how = ctx.pick('how', ['label', 'class', 'more', 'less'])
    if how == 'label':
        x.label = 'other'
    elif how == 'class':
        if x is c:
            c = U(c.label, *c.take())
        else:
            x.replace_with(U(x.label, *x.take()))
    elif how == 'more':
        x.append(T('more'))
    else:
        if x is c:
            return
        x.parent.remove(x)
    ctx.check(not c.equals(t[i]) and not t[i].equals(c), 'a changed tree is not equal')
    ctx.observe('labels', labels(t[i].descendants()))


@harness('C12', cases=[dict(style=s) for s in (None, 'ascii', 'flat')], bounds='all trees of five nodes')
def node_dump(ctx):
    """A dump has a line for every node in document order, drawn under its parent."""
    import io
    s = X.shape(ctx, 5)
    t = X.build(s)
    f = io.StringIO()
    t[0].dump(f, ctx.params['style'])
    lines = f.getvalue().splitlines()
    ctx.check(len(lines) == 5, 'a line for every node')
    v, space, mid, last = {'ascii': (' | ', '   ', ' |-', ' `-'), 'flat': ('│', ' ', '├', '╰')}.get(
        ctx.params['style'], (' │ ', '   ', ' ├╴', ' ╰╴'))
    for i, line in enumerate(lines):
        want = repr(t[i])
        for k, a in enumerate([i] + s.ancestors(i)):
            if a:
                more = s.index(a) < len(s.siblings(a)) - 1
                want = ((mid if more else last) if k == 0 else (v if more else space)) + want
        ctx.check(line == want, 'the line')
    ctx.observe('depth', s.d)
