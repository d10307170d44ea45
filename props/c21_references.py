"""C21: finding the value of a reference, in the document and in included documents."""
from quickly.dom import lily, scope
from vs.ctx import harness

URLS = ['/x/main.ly', '/x/a.ly', '/x/b.ly']
FILES = ['main.ly', 'a.ly', 'b.ly', 'missing.ly']


class Doc:
    """A document with a url, of which the tree may not be ready."""
    def __init__(self, url, tree, ready=True):
        self.url = url
        self.tree = tree
        self.ready = ready
        self.waits = []

    def get_transform(self, wait=False):
        self.waits.append(wait)
        return self.tree if wait or self.ready else None


class World:
    """Documents with assignments of symbolic names, that include each other."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.values = []
        self.docs = {}
        self.plans = {}

    def name(self, label):
        return self.ctx.text(label, 'ab', 1)

    def items(self, label, n, kinds):
        return [self.item('%s%d' % (label, i), kinds) for i in range(n)]

    def item(self, label, kinds):
        """A plan ('assign', name, value) or ('include', file), or ('block', plan) and the node for it."""
        kind = self.ctx.pick(label + '.kind', kinds)
        if kind in FILES:
            return ('include', FILES.index(kind)), lily.Include(lily.String(kind))
        name = self.name(label + '.name')
        v = len(self.values)
        value = lily.Int(v)
        self.values.append(value)
        node = lily.Assignment(lily.Identifier(lily.Symbol(name)), lily.EqualSign(), value)
        plan = ('assign', name, v)
        if kind == 'block':
            return ('block', plan), lily.Header(node)
        if kind == 'other':
            return ('other',), lily.MusicList(node)
        return plan, node

    def file(self, i, items, ready=True):
        self.plans[i] = [p for p, n in items]
        self.docs[i] = Doc(URLS[i], lily.Document(*(n for p, n in items)), ready)

    def factory(self, filename):
        for d in self.docs.values():
            if d.url == filename:
                return d
        raise FileNotFoundError(filename)

    def back(self, plans, chain, wait):
        """The assignments backwards from the end of plans, also in what is included; chain has the open files."""
        for p in reversed(plans):
            if p[0] == 'assign':
                yield p[1], p[2], chain
            elif p[0] == 'include' and chain is not None and p[1] in self.docs and p[1] not in chain:
                if wait or self.docs[p[1]].ready:
                    yield from self.back(self.plans[p[1]], chain + (p[1],), wait)


def chain_of(world, s):
    """The files from the root to the scope."""
    r = []
    while s:
        r.insert(0, URLS.index(s.document().url))
        s = s.parent
    return tuple(r)


def compare(ctx, world, name, found, candidates, scoped):
    """Found is the first candidate with the name."""
    if found is None:
        ctx.check(ctx.And(*(n != name for n, v, c in candidates)), 'nothing is found if no assignment has the name')
        return
    value, s = found
    for n, v, c in candidates:
        if world.values[v] is value:
            ctx.check(n == name, 'the assignment has the name')
            ctx.check((chain_of(world, s) == c) if scoped else s is None, 'the scope is that of the document of the assignment')
            return
        ctx.check(n != name, 'no nearer assignment has the name')
    ctx.check(False, 'the value is that of a visible assignment')


ITEMS = ['assign', 'a.ly', 'b.ly', 'block']
INNER = ['assign', 'main.ly', 'b.ly']
PLACES = ['top', 'block', 'field']


def place(ctx, world, where, ref, before, after, kinds):
    """Items with the ref, or whatever node it is; the plans that are visible there from inner to outer."""
    items = [] if before is None else world.items('before', before, kinds)
    outer = [p for p, n in items]
    tail = world.items('after', after, ['assign'])
    if where == 'top':
        x = ref
        visible = [outer]
    elif where == 'block':
        inner = world.items('inner', 1, ['assign', 'b.ly', 'other'])
        last = world.items('last', 1, ['assign'])
        x = lily.Book(*(n for p, n in inner), lily.Score(ref), *(n for p, n in last))
        visible = [[p for p, n in inner], outer]
    else:
        inner = world.items('inner', 1, ['assign'])
        x = lily.Header(*(n for p, n in inner), lily.Assignment(lily.Identifier(lily.Symbol(ref.head)), lily.EqualSign(), ref))
        visible = [[p for p, n in inner], outer]
    return items + [(('other',), x)] + tail, visible


def reference(ctx, world):
    name = world.name('name')
    kind = ctx.pick('reference', ['variable', 'markup'])
    ref = lily.IdentifierRef(name) if kind == 'variable' else lily.MarkupCommand(name)
    return name, ref


def ask(ctx, world, ref, s, wait):
    """Ask for the value, in all ways."""
    # waiting is the default
    args = () if wait else (wait,)
    found = ref.get_value_with_scope(s, *args)
    value = ref.get_value(s, *args)
    ctx.check(value is (found and found[0]), 'get_value() and get_value_with_scope() agree')
    if not wait:
        ctx.check(not any(any(d.waits) for d in world.docs.values()), 'it does not wait')
    elif found:
        ctx.check(all(all(d.waits) for d in world.docs.values()), 'it waits')
    return found


@harness('C21', cases=[dict(n=n, where=w, scope=s) for n in (1, 2, 3) for w in PLACES for s in (False, True) if n < 3 and (n, w) != (2, 'block') or not s or w == 'top'],
         thorough=[dict(n=n, where=w, scope=s) for n in (1, 2, 3) for w in PLACES for s in (False, True)],
         bounds='up to three (in a block one) items before the reference, one before it in the block, and one after it; three documents of up to two items that may include each other or be missing or not ready, names of one letter of two')
def visible_value(ctx):
    """A reference has the value of the nearest assignment with its name before it, in its blocks, the document, and what is included there."""
    n, where = ctx.params['n'], ctx.params['where']
    w = World(ctx)
    name, ref = reference(ctx, w)
    node = ref if where == 'field' else lily.MusicList(ref)
    scoped = ctx.params['scope']
    items, visible = place(ctx, w, where, node, n, 1, ITEMS if scoped else ['assign', 'a.ly', 'block'])
    w.file(0, items)
    wait = True
    if scoped:
        if ctx.flag('a exists'):
            w.file(1, w.items('a', 2 if n < 2 else 1, INNER), ctx.flag('a is ready'))
            wait = ctx.flag('wait')
        w.file(2, w.items('b', 1, ['assign', 'a.ly', 'main.ly']))
        s = scope.Scope(w.docs[0], factory=w.factory)
        chain = (0,)
    else:
        s = chain = None
    found = ask(ctx, w, ref, s, wait)
    candidates = [c for plans in visible for c in w.back(plans, chain, wait)]
    compare(ctx, w, name, found, candidates, scoped)
    ctx.observe('found', found and found[0].head)


@harness('C21', cases=[dict(n=n, where=wh, outer=o) for n in (0, 1, 2) for wh in PLACES for o in PLACES[:2]],
         bounds='up to two items before the reference in an included document, up to two before the include and one after it; with a third document')
def value_from_includer(ctx):
    """A reference in an included document has the value of the nearest assignment before it, there or before the include."""
    n = ctx.params['n']
    w = World(ctx)
    name, ref = reference(ctx, w)
    node = ref if ctx.params['where'] == 'field' else lily.MusicList(ref)
    items, visible = place(ctx, w, ctx.params['where'], node, n, 1, ['assign', 'main.ly', 'b.ly'])
    w.file(1, items)
    inc = lily.Include(lily.String('a.ly'))
    before = w.items('m', 2, ['assign', 'b.ly'])
    after = w.items('n', 1, ['assign'])
    if ctx.params['outer'] == 'block':
        inner = w.items('i', 1, ['assign'])
        main = before + [(('other',), lily.Header(*(x for p, x in inner), inc))] + after
        outer = [[p for p, x in inner], [p for p, x in before]]
    else:
        main = before + [(('include', 1), inc)] + after
        outer = [[p for p, x in before]]
    w.file(0, main)
    w.file(2, w.items('b', 1, ['assign', 'a.ly', 'main.ly']))
    root = scope.Scope(w.docs[0], factory=w.factory)
    s = root.include_scope('a.ly', inc if ctx.params['n'] or ctx.flag('node') else None)
    found = ask(ctx, w, ref, s, True)
    candidates = [c for plans in visible for c in w.back(plans, (0, 1), True)]
    if s.node:
        candidates += [c for plans in outer for c in w.back(plans, (0,), True)]
    compare(ctx, w, name, found, candidates, True)
    ctx.observe('found', found and found[0].head)


class Anything:
    def __init__(self, url):
        self.url = url


@harness('C21', cases=[dict(depth=d) for d in (1, 2, 3)], bounds='up to three documents that include each other, four relative or absolute urls, two folders in the include path, any of the files exist')
def include_urls(ctx):
    """An included file is looked for next to the document, next to the first document and in the include path; open documents are skipped."""
    from urllib.parse import urljoin
    urls = ['file:///r/main.ly', 'file:///r/s/a.ly', 'file:///t/b.ly']
    depth = ctx.params['depth']
    exists = {}
    asked = []
    cls = scope.Scope

    def factory(filename):
        asked.append(filename)
        if filename not in exists:
            exists[filename] = ctx.bool('exists ' + filename)
        if exists[filename]:
            return Anything('file://' + filename)
        raise FileNotFoundError(filename)
    s = cls(Anything(urls[0]), factory=factory)
    s.relative_include = ctx.flag('relative')
    path = ctx.pick('path', [[], ['file:///p'], ['file:///p/', 'file:///r/s'], ['file:///t', 'file:///t/']])
    s.include_path = path
    scopes = [s]
    for i in range(1, depth):
        child = cls(Anything(urls[i]), scopes[-1], factory, 'node')
        scopes.append(child)
        ctx.check(child.include_path == path and child.relative_include == s.relative_include and child.parent is scopes[-2] and child.node == 'node',
                  'what is inherited')
    last = scopes[-1]
    ctx.check(list(last.ancestors()) == scopes[-2::-1] and last.root() is s, 'the ancestors of a scope')
    url = ctx.pick('url', ['new.ly', 'a.ly', 's/a.ly', '../r/main.ly', '/t/b.ly'])
    want = []
    for base in ([last.document().url] if s.relative_include else []) + [urls[0]] + [p.rstrip('/') + '/' for p in path]:
        u = urljoin(base, url)
        if u not in want and u not in urls[:depth]:
            want.append(u)
    ctx.check(last.urls(url) == want, 'the urls in order')
    child = last.include_scope(url, 'here')
    files = [u[len('file://'):] for u in want]
    if child is None:
        ctx.check(asked == files, 'all are tried')
        ctx.check(ctx.And(*(ctx.Not(exists[f]) for f in files)), 'none only if no file exists')
    else:
        f = child.document().url[len('file://'):]
        ctx.check(f in files and asked == files[:files.index(f) + 1], 'no other is tried')
        ctx.check(ctx.And(exists[f], *(ctx.Not(exists[g]) for g in files[:files.index(f)])), 'it is the first that exists')
        ctx.check(child.parent is last and child.node == 'here' and child.factory is factory and child.include_path == path
                  and child.relative_include == s.relative_include, 'the new scope')


LETTERS = 'abC1_- ."\\é'


@harness('C21', cases=[dict(parts=p) for p in ('s', 'ss', 'si', 'sis')], thorough=[dict(parts=p) for p in ('s', 'ss', 'si', 'sis', 'ssi', 'sss')],
         bounds='names of up to three parts: numbers of up to 3, texts of one or two characters of eleven (in names of three parts, and the second ones, one of four)')
def names(ctx):
    """A name reads back as it was set, from an identifier and a reference, before and after writing."""
    from quickly.dom import read
    name = []
    for i, p in enumerate(ctx.params['parts']):
        if p == 's':
            name.append(ctx.text('part%d' % i, LETTERS if i == 0 and len(ctx.params['parts']) < 3 else 'a1."', ctx.size('length%d' % i, 1, 2 if i == 0 else 1)))
        else:
            name.append(ctx.int('part%d' % i, 0, 3))
    name = tuple(name) if len(name) > 1 else name[0]
    ident = lily.Identifier.with_name(name)
    ref = lily.IdentifierRef.with_name(name)
    ctx.check(ident.get_name() == name, 'the name of an identifier')
    ctx.check(ref.get_name() == name, 'the name of a reference')
    a = lily.Assignment.with_name(name, lily.Int(5))
    ctx.check(a.get_name() == name and a.get_value().head == 5, 'an assignment')
    old = lily.IdentifierRef.with_name(ctx.pick('old', ['x', ('x', 'y'), ('1', 2)]))
    old.set_name(name)
    ctx.check(old.get_name() == name, 'a name that is set')
    d = lily.Document(a, lily.MusicList(ref))
    found = ref.get_value()
    ctx.check(found is a[-1], 'the reference finds the assignment')
    if ctx.flag('write'):
        text = lily.Document(lily.Assignment.with_name(ctx.concrete(name), lily.Int(5)), lily.MusicList(lily.IdentifierRef.with_name(ctx.concrete(name)))).write()
        d = read.lily_document(ctx.concrete(text))
        got = d[0].get_name(), d[-1][0].get_name()
        ctx.check(got[0] == ctx.concrete(name), 'the name of an assignment that is read back')
        ctx.check(got[1] == ctx.concrete(name), 'the name of a reference that is read back')
