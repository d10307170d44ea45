"""C28: the other end of a slur, beam or other spanner."""
from vs.ctx import harness
from props import read_common as R

# where the events are, with the scopes: ( ) is music, < > simultaneous, [ ] a new scope, digits are events, - is a note without
FLAT = '(0123)'
SHAPES = {
    'flat': '(0-123)',
    'nested': '(0(1-)<2(3)>)',
    'mixed': '((0)1(-(2))3)',
    'assignments': '[(012)][(3)]',
    'news': '<[(01)]-[(23)]>',
    'scores': '[(0)][(12)][3]',
    'chords': '({01}-{23})',
    'deep': '(((0)((1))2)((3)))',
    'parts': '(0[(1)]2-3)',
    'long': '(01(23)4)',
}

KINDS = ('Slur', 'PhrasingSlur', 'Beam', 'Ligature', 'TextSpanner', 'TrillSpanner', 'Melisma')


def scopes(shape):
    """The scope of every event."""
    out, stack, n = {}, [0], 0
    for c in shape:
        if c == '[':
            n += 1
            stack.append(n)
        elif c == ']':
            stack.pop()
        elif c.isdigit():
            out[int(c)] = stack[-1]
    return [out[i] for i in range(len(out))]


class Tree:
    """The DOM of a shape."""
    def __init__(self, ctx, shape, scope, kinds, which):
        from quickly.dom import lily
        self.ctx, self.lily = ctx, lily
        self.scope = scopes(shape)
        self.n = len(self.scope)
        self.kinds = [kinds[0] if i == which else ctx.pick('kind%d' % i, kinds) for i in range(self.n)]
        self.heads = [ctx.pick('head%d' % i, ('start', 'stop')) for i in range(self.n)]
        mode = ctx.params.get('ids', 'no?')
        self.ids = []
        for i in range(self.n):
            if mode == 'no?' or mode.endswith('?') and not ctx.flag('id%d' % i):
                self.ids.append(None)
            elif mode.startswith('int'):
                self.ids.append(ctx.int('num%d' % i, 0, 999))
            else:
                self.ids.append(ctx.text('name%d' % i, 'abz', 2))
        self.mode = mode.rstrip('?')
        self.nodes = [None] * self.n
        self.scope_class = scope
        self.root = lily.Document()
        self._fill(self.root, iter(shape))

    def _event(self, i):
        lily = self.lily
        node = self.nodes[i] = getattr(lily, self.kinds[i])(self.heads[i])
        if self.ids[i] is not None:
            cls = {'int': lily.Int, 'symbol': lily.Symbol, 'string': lily.String}[self.mode]
            node = lily.SpannerId(cls(self.ids[i]), node)
        return lily.Note('c', lily.Articulations(node))

    def _fill(self, parent, it):
        lily = self.lily
        for c in it:
            if c in ')>}]':
                return
            elif c == '-':
                parent.append(lily.Note('d', lily.Duration(1)))
            elif c.isdigit():
                parent.append(self._event(int(c)))
            elif c == '[':
                scope = self.scope_class
                if scope == 'Assignment':
                    node = lily.Assignment(lily.Identifier(lily.Symbol('m')), lily.EqualSign())
                elif scope == 'New':
                    node = lily.New(lily.Symbol('Staff'))
                else:
                    node = lily.Score()
                self._fill(node, it)
                parent.append(node)
            else:
                node = {'(': lily.MusicList, '<': lily.SimultaneousMusicList, '{': lily.Chord}[c]()
                target = node
                if c == '{':
                    target = lily.ChordBody()
                    node.append(target)
                self._fill(target, it)
                parent.append(node)

    def fits(self, i, j):
        """True if event j is the opposite of i, wherever it is."""
        ctx = self.ctx
        if self.scope[i] != self.scope[j] or self.kinds[i] != self.kinds[j] or self.heads[i] == self.heads[j]:
            return False
        a, b = self.ids[i], self.ids[j]
        if a is None or b is None:
            return a is None and b is None
        return a == b

    def order(self, i):
        """The events in the direction of the other end."""
        return range(i + 1, self.n) if self.heads[i] == 'start' else range(i - 1, -1, -1)

    def check(self, i, found, label):
        """found is the first that fits, in the direction."""
        ctx = self.ctx
        for j in self.order(i):
            if self.fits(i, j):
                ctx.check(found is self.nodes[j], label)
                return j
        ctx.check(found is None, label + ' (there is none)')


@harness('C28', cases=[
    dict(shape='flat', scope='New', ids='int'), dict(shape='nested', scope='New', ids='int', kinds=1),
    dict(shape='mixed', scope='New', ids='symbol', kinds=1), dict(shape='chords', scope='New', ids='string', kinds=1),
    dict(shape='assignments', scope='Assignment', ids='int?', kinds=1), dict(shape='news', scope='New', ids='int?', kinds=1),
    dict(shape='scores', scope='Score', ids='int?', kinds=1), dict(shape='deep', scope='New', ids='symbol?', kinds=1)],
    thorough=[dict(shape=s, scope='New', ids=k) for s in ('flat', 'nested', 'mixed', 'chords', 'deep') for k in ('int?', 'symbol?')] + [
        dict(shape='long', scope='New', ids='int?', kinds=1), dict(shape='long', scope='New', ids='symbol'),
        dict(shape='news', scope='Assignment', ids='string?'), dict(shape='news', scope='Score', ids='symbol?'), dict(shape='assignments', scope='New', ids='int?')],
    bounds='Four (thorough: five) spanner ends in eight (ten) shapes of music, each a slur or (not in all shapes) a phrasing slur, '
    'start or stop, with or (not in all shapes) without a spanner id: any number below 1000, or any name of two characters of three. No New, Assignment or Score '
    'inside a part that has ends of its own.')
def parallel_first(ctx):
    """The other end is the first opposite end of the same kind with an equal id, in the part."""
    p = ctx.params
    which = ctx.pick('which', tuple(range(len(scopes(SHAPES[p['shape']])))))
    t = Tree(ctx, SHAPES[p['shape']], p['scope'], ('Slur', 'PhrasingSlur')[:p.get('kinds', 2)], which)
    i = which
    found = ctx.call(lambda: t.nodes[i].find_parallel())
    ctx.observe('found', None if found is None else found.head)
    j = t.check(i, found, 'the first opposite end')
    if j is not None:
        back = ctx.call(lambda: t.nodes[j].find_parallel())
        k = t.check(j, back, 'and from there')
        same = [x for x in range(min(i, j) + 1, max(i, j)) if t.kinds[x] == t.kinds[i]]
        if not same:
            ctx.check(k == i, 'two ends belong to each other')


@harness('C28', cases=[dict(shape=s) for s in ('flat', 'nested', 'deep')], thorough=[dict(shape=s) for s in ('mixed', 'parts', 'news', 'chords')],
         bounds='Three (thorough: seven) shapes with four ends of slurs without ids, any limit from 1 to 30 nodes')
def parallel_limit(ctx):
    """With a limit on the number of nodes to search, either the same end is found, or none; none but if it is farther away."""
    shape = SHAPES[ctx.params['shape']]
    which = ctx.pick('which', tuple(range(len(scopes(shape)))))
    t = Tree(ctx, shape, 'New', ('Slur',), which)
    limit = ctx.int('limit', 1, 30)
    node = t.nodes[which]
    full = ctx.call(lambda: node.find_parallel())
    t.check(which, full, 'without a limit')
    found = ctx.call(lambda: node.find_parallel(limit))
    ctx.observe('found', None if found is None else found.head)
    ctx.check(found is None or found is full, 'the same end or none')
    if full is not None and t.heads[which] == 'start':
        flat = list(t.root.descendants())
        at = [i for i, n in enumerate(flat) if n is node][0]
        to = [i for i, n in enumerate(flat) if n is full][0]
        ctx.check(ctx.Implies(to - at <= limit, found is full), 'nothing is left out within the limit')
        ctx.check(ctx.Implies(to - at > limit, found is None), 'nothing is found after the limit')
    elif full is not None:
        flat = list(t.root.descendants())
        ctx.check(ctx.Implies(limit >= len(flat), found is full), 'a limit that is large enough')


@harness('C28', bounds='All pairs of the seven kinds of spanners, start and stop, with or without equal or different numbers below 1000')
def parallel_kinds(ctx):
    """Two ends belong to each other if they are the start and then the stop of the same kind, with an equal id or both without."""
    a, b = ctx.pick('kind_a', KINDS), ctx.pick('kind_b', KINDS)
    from quickly.dom import lily
    heads = ctx.pick('heads', ('start stop', 'stop start', 'start start', 'stop stop')).split()
    ids, nodes, notes = [], [], []
    for i, (kind, head) in enumerate(zip((a, b), heads)):
        node = getattr(lily, kind)(head)
        nodes.append(node)
        ids.append(ctx.int('num%d' % i, 0, 999) if ctx.flag('id%d' % i) else None)
        notes.append(lily.Note('c', lily.Articulations(node if ids[i] is None else lily.SpannerId(lily.Int(ids[i]), node))))
    root = lily.Document(lily.MusicList(notes[0], lily.Note('d'), lily.SimultaneousMusicList(lily.MusicList(lily.Note('e'), notes[1]))))
    fits = a == b and heads == ['start', 'stop'] and (ids[0] is None) == (ids[1] is None)
    if fits and ids[0] is not None:
        fits = ids[0] == ids[1]
    one = ctx.call(lambda: nodes[0].find_parallel())
    two = ctx.call(lambda: nodes[1].find_parallel())
    ctx.observe('one', None if one is None else one.head)
    if one is None:
        ctx.check(two is None and ctx.Not(fits), 'there is no other end')
    else:
        ctx.check(one is nodes[1] and two is nodes[0] and fits, 'the other end')


ENDS = [('(', 'Slur', 'start'), (')', 'Slur', 'stop'), ('\\(', 'PhrasingSlur', 'start'), ('\\)', 'PhrasingSlur', 'stop'), ('[', 'Beam', 'start'), (']', 'Beam', 'stop')]

BEFORE = {'nothing': '', 'direction': '-', 'tweak': '\\tweak color #red ', 'both': '^\\tweak color #red '}

BETWEEN = {'nothing': '', 'space': ' ', 'comment': ' %{x%} ', 'tweak': '\\tweak color #red ', 'direction': '-'}


@harness('C28', cases=[dict(form='id'), dict(form='plain'), dict(form='before')],
         bounds='Texts with two ends of a slur, phrasing slur or beam with an id of one or two digits on both, one or none of them, with a direction, a tweak, '
         'a comment or spaces in the one place or the other')
def parallel_read(ctx):
    """In a text that is read, the other end is where it is in the text."""
    from quickly.lang.lilypond import LilyPond
    from quickly.dom import lily
    form = ctx.params['form']
    d = R.Doc(ctx)
    d('{ c')
    start, stop = (ENDS[i] for i in ctx.pick('ends', ((0, 1), (2, 3), (4, 5))))
    at, ids = [], []
    for i, (end, kind, head) in enumerate((start, stop)):
        d(BEFORE[ctx.pick('before%d' % i, tuple(BEFORE))] if form == 'before' or form == 'plain' else '')
        if form != 'plain' and (form == 'before' or ctx.flag('id%d' % i)):
            d('\\=')
            ids.append(d.number('123', ctx.pick('digits%d' % i, (1, 2)) if form == 'id' else 1))
            d(BETWEEN[ctx.pick('between%d' % i, tuple(BETWEEN))] if form == 'id' else '')
        else:
            ids.append(None)
        at.append(len(d.sample))
        d(end)
        d(' d e' if i == 0 else ' }')
    tree, transformer, got = R.read_tree(LilyPond.root, d.text, d.sample)
    nodes = [n for n in got.descendants() if isinstance(n, lily.Spanner)]
    ctx.check([n.pos for n in nodes] == at, 'where the ends are')
    if (ids[0] is None) != (ids[1] is None):
        fits = False
    else:
        fits = ids[0] is None or ids[0] == ids[1]
    one = ctx.call(lambda: nodes[0].find_parallel())
    two = ctx.call(lambda: nodes[1].find_parallel())
    ctx.observe('one', None if one is None else one.pos)
    if one is None:
        ctx.check(two is None and ctx.Not(fits), 'there is no other end')
    else:
        ctx.check(one is nodes[1] and two is nodes[0] and fits, 'the other end')
