"""C11: the length of music and the position of its nodes."""
from vs.ctx import harness
from props import common as K, rhythm_common as R
from quickly import duration as D
from quickly.dom import lily, base
from quickly.time import Time

F = K.F
LEAVES = ['note', 'bare', 'chord', 'nochord', 'rest', 'skip', 'skipmusic', 'unpitched', 'bar', 'comment']
NESTS = ['list', 'simultaneous', 'simul', 'tuplet', 'times', 'scale', 'grace', 'aftergrace', 'lyrics', 'ref', 'relative',
         'repeat', 'part', 'sequential']
KINDS = LEAVES + NESTS
MORE = ['tag', 'tagevent', 'figures', 'volta', 'unfolded', 'after']
# what contains music
MUSIC = R.TIMED + (lily.MusicList, lily.SimultaneousMusicList, lily.Simultaneous, lily.Sequential, lily.Tuplet, lily.Times, lily.ScaleDurations, lily.ShiftDurations, lily.Grace,
                   lily.AfterGrace, lily.LyricMode, lily.FigureMode, lily.Relative, lily.Repeat, lily.PartCombine, lily.Tag, lily.KeepWithTag, lily.RemoveWithTag, lily.Volta,
                   lily.Unfolded, lily.After, lily.LyricHyphen, lily.PipeSymbol)
SECOND = ['bare', 'tuplet', 'comment', 'list']


def dur(ctx, name):
    d = lily.Duration(F(1))
    d.head = ctx.real(name + '.dur', F(1, 8), F(1), 8)
    if ctx.params.get('scaling') and ctx.flag(name + '.scaling'):
        s = lily.DurationScaling(F(1))
        s.head = ctx.real(name + '.scale', F(1, 2), 2, 2)
        d.append(s)
    return d


def item(ctx, name, kind):
    D = lambda s='': dur(ctx, name + s)
    N = lambda s='': lily.Note('c', D(s))
    if kind == 'note':
        return N()
    if kind == 'bare':
        return lily.Note('c')
    if kind == 'chord':
        return lily.Chord(lily.ChordBody(lily.Note('c'), lily.Note('e')), D())
    if kind == 'nochord':
        return lily.Chord(lily.ChordBody(), D())
    if kind == 'rest':
        return lily.Rest(D())
    if kind == 'skip':
        return lily.Skip(D())
    if kind == 'skipmusic':
        return lily.Skip(lily.MusicList(N(), lily.Note('d')))
    if kind == 'unpitched':
        return lily.Unpitched(D())
    if kind == 'bar':
        return lily.PipeSymbol()
    if kind == 'comment':
        return lily.SinglelineComment(' text')
    if kind == 'list':
        return lily.MusicList(N('x'), lily.Note('d'))
    if kind == 'simultaneous':
        return lily.SimultaneousMusicList(N('x'), lily.MusicList(lily.Note('d'), lily.Note('e')))
    if kind == 'simul':
        return lily.Simultaneous(lily.MusicList(N('x'), N('y')))
    if kind == 'sequential':
        return lily.Sequential(lily.MusicList(N('x'), N('y')))
    if kind == 'tuplet':
        return lily.Tuplet(lily.Fraction((3, 2)), lily.MusicList(N('x'), lily.Note('d')))
    if kind == 'times':
        return lily.Times(lily.Fraction((2, 3)), lily.MusicList(N('x'), lily.Tuplet(lily.Fraction((5, 4)), lily.MusicList(N('y')))))
    if kind == 'scale':
        return lily.ScaleDurations(lily.Fraction((5, 3)), N('x'))
    if kind == 'grace':
        return ctx.pick(name + '.grace', [lily.Grace, lily.Acciaccatura, lily.Appoggiatura, lily.SlashedGrace])(
            lily.MusicList(N('x')))
    if kind == 'aftergrace':
        fr = [lily.Fraction((7, 8))] if ctx.flag(name + '.fraction') else []
        return lily.AfterGrace(*fr, N('x'), lily.MusicList(N('y')))
    if kind == 'lyrics':
        return lily.LyricMode('lyricmode', lily.MusicList(lily.LyricText('la', D('x')), lily.LyricHyphen(), lily.LyricText('lu')))
    if kind == 'ref':
        return lily.IdentifierRef(ctx.pick(name + '.var', ['one', 'two', 'none', 'text']))
    if kind == 'relative':
        return lily.Relative(lily.Pitch('c'), lily.MusicList(N('x')))
    if kind == 'repeat':
        return lily.Repeat(lily.Symbol('volta'), lily.Int(2), lily.MusicList(N('x')))
    if kind == 'part':
        return lily.PartCombine(lily.MusicList(N('x')), lily.MusicList(N('y')))
    if kind == 'tag':
        return ctx.pick(name + '.tag', [lily.Tag, lily.KeepWithTag, lily.RemoveWithTag])(lily.Symbol('t'), lily.MusicList(N('x'), lily.Note('d')))
    if kind == 'tagevent':
        return lily.Note('c', D(), lily.Articulations(lily.Direction(0, lily.Tag(lily.Symbol('t'), lily.Slur('start')))))
    if kind == 'figures':
        return lily.FigureMode('figuremode', lily.MusicList(lily.Figure(lily.FigureBody(lily.FigureStep(6)), D('x')), lily.Figure(lily.FigureBody(lily.FigureSkip()))))
    if kind == 'volta':
        return lily.Volta(lily.Int(2), lily.MusicList(N('x')))
    if kind == 'unfolded':
        return lily.Unfolded(lily.MusicList(N('x'), lily.Note('d')))
    if kind == 'after':
        return lily.After(D(), lily.Articulations(lily.Dynamic('f')))
    raise KeyError(kind)


class Oracle:
    """LilyPond's rules for the length of music."""
    def __init__(self, ctx, doc):
        self.ctx = ctx
        self.doc = doc
        self.eff = {id(n): (d, s) for n, d, s in R.effective(doc)}

    def max(self, values):
        m = F(0)
        for v in values:
            m = self.ctx.ite(v > m, v, m)
        return m

    @staticmethod
    def factor(n):
        """How much a command makes its music longer."""
        if isinstance(n, lily.Tuplet):
            a, b = n[0].head
            return F(b, a)
        if isinstance(n, (lily.Times, lily.ScaleDurations)):
            return F(*n[0].head)
        if isinstance(n, lily.Grace):
            return F(0)
        return F(1)

    def length(self, n, scale=F(1)):
        """The length of a node; scale is by what is around it."""
        if isinstance(n, lily.IdentifierRef):
            v = self.value(n)
            return self.length(v, scale) if v is not None else F(0)
        scale = scale * self.factor(n)
        if isinstance(n, lily.Chord) and not any(isinstance(c, lily.Note) for b in list(n)
                if isinstance(b, lily.ChordBody) for c in list(b)):
            return F(0)
        if isinstance(n, R.TIMED) and not (isinstance(n, lily.Skip) and R.own(n) is None):
            d, s = self.eff[id(n)]
            return d * s * scale
        if not isinstance(n, MUSIC):
            return F(0)
        if isinstance(n, lily.AfterGrace):
            for c in list(n):
                if isinstance(c, MUSIC):
                    return self.length(c, scale)
        lengths = [self.length(c, scale) for c in list(n)]
        return self.sum(lengths) if self.sequential(n) else self.max(lengths)

    def sum(self, values):
        t = F(0)
        for v in values:
            t = t + v
        return t

    @staticmethod
    def sequential(n):
        return type(n) is lily.MusicList and not isinstance(n.parent, lily.Simultaneous)

    def value(self, ref):
        """The music of the variable, as written last before the reference."""
        top = ref
        while top.parent is not self.doc:
            top = top.parent
        found = None
        for n in list(self.doc):
            if n is top:
                break
            if isinstance(n, lily.Assignment) and n[0].get_name() == ref.head:
                found = list(n)[2]
        return found if isinstance(found, MUSIC) else None

    def around(self, n):
        """The scale by the commands around a node, in its music."""
        scale = F(1)
        while isinstance(n.parent, MUSIC):
            n = n.parent
            scale = scale * self.factor(n)
        return scale

    def position(self, n):
        t = F(0)
        while isinstance(n.parent, MUSIC):
            p = n.parent
            if self.sequential(p):
                around = self.around(p) * self.factor(p)
                for c in list(p):
                    if c is n:
                        break
                    t = t + self.length(c, around)
            n = p
        return n, t


def build(ctx, n, kinds):
    p = ctx.params
    items = [item(ctx, 'm%d' % i, p.get('kind%d' % i) or ctx.pick('kind%d' % i, SECOND if p.get('quick') and i else kinds))
             for i in range(n)]
    c = p['container']
    ml = lily.MusicList(*items)
    if c == 'simultaneous':
        top = lily.SimultaneousMusicList(*ml.take())
    elif c == 'tuplet':
        top = lily.Tuplet(lily.Fraction((3, 2)), ml)
    elif c == 'inside':
        top = lily.MusicList(lily.Note('c', dur(ctx, 'first')), lily.Times(lily.Fraction((2, 5)), ml), lily.Note('d'))
    else:
        top = ml
    doc = lily.Document(top)
    if any(isinstance(n, lily.IdentifierRef) for n in doc.descendants()):
        doc[0:0] = [lily.Assignment.with_name('text', lily.String('words')),
                    lily.Assignment.with_name('one', lily.MusicList(lily.Note('c', dur(ctx, 'v1')), lily.Note('d'))),
                    lily.Assignment.with_name('two', lily.IdentifierRef('one') if ctx.flag('chain') else
                                              lily.MusicList(lily.Note('c', dur(ctx, 'v2')))),
                    lily.Assignment.with_name('one', lily.MusicList(lily.Note('c', dur(ctx, 'v3'))))]
        if isinstance(doc[2][2], lily.IdentifierRef):
            return doc, top, items, True
    return doc, top, items, False


class Chained(Oracle):
    """With the variable two that refers to the first one."""
    def value(self, ref):
        if ref.head == 'two':
            return self.doc[1][2]
        return super().value(ref)


def cases(containers, n, kinds):
    return R.split([dict(container=c, n=n) for c in containers], 'kind0', kinds)


def quick(cases):
    return [dict(c, quick=True) for c in cases]


def nodes(doc, top):
    """The nodes that have a position."""
    return [n for n in [top] + list(top.descendants())
            if isinstance(n, MUSIC + (lily.Reference,)) and not isinstance(n.parent, lily.ChordBody)
            and isinstance(n.parent, MUSIC + (lily.Document,))]


@harness('C11', cases=quick(cases(['list', 'simultaneous', 'inside'], 2, KINDS)) +
         quick(cases(['list'], 2, MORE)) + [dict(container='list', n=1, kind0=k, scaling=True) for k in KINDS],
         thorough=cases(['list', 'simultaneous', 'tuplet', 'inside'], 2, KINDS + MORE) + R.split(cases(['list', 'inside'], 3, KINDS), 'kind1', KINDS),
         bounds='two (thorough: three) items of 30 kinds in four containers; durations any multiple of 1/8 up to 1, scalings')
def time_length(ctx):
    """The length of music: sum, maximum, commands, inherited durations, references."""
    doc, top, items, chained = build(ctx, ctx.params['n'], KINDS)
    if R.ambiguous(doc):
        return
    o = (Chained if chained else Oracle)(ctx, doc)
    t = Time()
    ctx.check(t.length(top) == o.length(top), 'the length of the whole')
    for n in items:
        ctx.check(t.length(n) == o.length(n, o.around(n)), 'the length of an item where it stands')
    ctx.observe('length', t.length(top))


@harness('C11', cases=quick(cases(['list', 'inside'], 2, KINDS) + cases(['list'], 2, MORE)),
         thorough=cases(['inside'], 2, MORE) + R.split(cases(['list', 'inside'], 3, KINDS), 'kind1', KINDS),
         bounds='every node of two (thorough: three) items in two containers')
def time_position(ctx):
    """The position of a node is the length of what comes before it."""
    doc, top, items, chained = build(ctx, ctx.params['n'], KINDS)
    if R.ambiguous(doc):
        return
    o = (Chained if chained else Oracle)(ctx, doc)
    ns = nodes(doc, top)
    n = ns[ctx.size('node', 0, len(ns) - 1)]
    t = Time()
    r = t.position(n)
    m, want = o.position(n)
    ctx.check(r.node is m, 'the topmost music')
    ctx.check(r.time == want, 'the position')
    r = t.position(n, True)
    ctx.check(r.node is m, 'the topmost music')
    ctx.check(r.time == want + o.length(n, o.around(n)), 'the position after the node')
    ctx.observe('position', want)


@harness('C11', cases=cases(['inside'], 1, [k for k in KINDS if k != 'ref']) + cases(['tuplet'], 1, KINDS) +
         cases(['list'], 2, ['note', 'tuplet', 'simultaneous']),
         thorough=cases(['inside', 'list', 'tuplet'], 2, KINDS),
         bounds='every two nodes of one or two items in three containers')
def time_duration(ctx):
    """The duration from one node to the end of another is the difference in position."""
    doc, top, items, chained = build(ctx, ctx.params['n'], KINDS if ctx.params['n'] == 1 else ['note', 'tuplet'])
    if R.ambiguous(doc):
        return
    doc.append(lily.MusicList(lily.Note('c', dur(ctx, 'other'))))
    o = (Chained if chained else Oracle)(ctx, doc)
    ns = nodes(doc, top)
    a = ns[ctx.size('start', 0, len(ns) - 1)]
    b = ns[ctx.size('end', 0, len(ns) - 1)]
    t = Time()
    r = t.duration(a, b)
    m, x = o.position(a)
    _, y = o.position(b)
    ctx.check(r.node is m, 'the topmost music')
    ctx.check(r.time == y + o.length(b, o.around(b)) - x, 'the duration')
    ctx.check(t.duration(a, doc[-1][0]) is None, 'none in different music')
    if isinstance(a, lily.Tuplet):
        r = t.duration(a[0], b)
        ctx.check(r.time == y + o.length(b, o.around(b)) - x, 'the duration from an argument of a command')
    ctx.observe('duration', r.time)


@harness('C11', cases=[dict(log=l) for l in range(-1, 3)], bounds='\\shiftDurations by log -1..2 and 0..1 dots around notes with '
         'fixed durations, in and around other commands')
def time_shifted(ctx):
    """\\shiftDurations shifts the written durations, also with other commands."""
    log, dots = ctx.params['log'], ctx.size('dots', 0, 1)
    l1, l2 = ctx.size('log1', 0, 3), ctx.size('log2', 0, 3)
    d1 = ctx.size('dots1', 0, 1)
    scale = ctx.real('scale', F(1, 2), 2, 2)
    du = lily.Duration(D.duration(l1, d1))
    sc = lily.DurationScaling(F(1))
    sc.head = scale
    du.append(sc)
    ml = lily.MusicList(lily.Note('c', du), lily.Note('d'), lily.Note('e', lily.Duration(D.duration(l2))))
    shift = lambda m: lily.ShiftDurations(lily.Int(log), lily.Int(dots), m)
    tuplet = lambda m: lily.Tuplet(lily.Fraction((3, 2)), m)
    outer = ctx.pick('order', [lambda m: shift(m), lambda m: shift(tuplet(m)), lambda m: tuplet(shift(m)), lambda m: shift(shift(m))])(ml)
    twice = isinstance(outer, lily.ShiftDurations) and isinstance(outer[2], lily.ShiftDurations)
    k = 2 if twice else 1
    tr = F(2, 3) if any(isinstance(n, lily.Tuplet) for n in [outer] + list(outer.descendants())) else F(1)
    doc = lily.Document(lily.MusicList(outer, lily.Note('f')))
    x = D.duration(l1 + k * log, d1 + k * dots) * scale * tr
    y = D.duration(l2 + k * log, k * dots) * tr
    z = D.duration(l2)
    t = Time()
    ctx.check(t.length(outer) == x + x + y, 'the shifted length')
    ctx.check(t.length(doc[0]) == x + x + y + z, 'the duration after it is not shifted')
    ctx.check(t.position(ml[2]).time == x + x, 'the position in shifted music')
    ctx.check(t.length(ml[1]) == x, 'the length of a note without duration in it')
    ctx.observe('x', x)
