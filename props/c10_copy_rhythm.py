"""C10: copying, pasting, transforming and removing durations."""
from vs.ctx import harness
from props import common as K, rhythm_common as R
from quickly import rhythm, duration as D
from quickly.duration import Transform
from quickly.dom import lily
from quickly.node import Range

F = K.F
KINDS = ['note', 'chord', 'skip', 'unpitched', 'note-', 'nested', 'comment']


FEW = ['note', 'chord', 'skip', 'unpitched', 'comment']


def cases(n, kinds=KINDS, **k):
    return R.split([dict(n=n, **k)], 'kind0', kinds)


BOUNDS = ('three (thorough: four) items: notes, chords, skips, bare durations, nested lists, comments; with or without '
          'duration (any multiple of 1/8 to 1) and scaling (any multiple of 1/2 to 2)')


def fits(node):
    """Whether the music can be read from a text."""
    return not R.ambiguous(node)


@harness('C10', cases=cases(3, ['note', 'skip', 'unpitched', 'comment']) + cases(3, scaling=False), thorough=cases(3) + cases(4, scaling=False), bounds=BOUNDS)
def rhythm_copied(ctx):
    """Copying gives the written or the effective durations and changes nothing; pasting them back neither."""
    doc, items = R.music(ctx, KINDS if not ctx.params.get('scaling', True) else ['note', 'skip'], ctx.params['n'])
    if not fits(doc):
        return
    before = R.effective(doc)
    own = [R.own(x[0]) for x in before]
    got = rhythm.CopyRhythm().edit_node(doc)
    full = rhythm.CopyRhythm(True).edit_node(doc)
    ctx.check(len(got) == len(full) == len(before), 'one for every note')
    for g, f, o, (x, d, s) in zip(got, full, own, before):
        ctx.check((g is None) == (o is None), 'None where there is no duration')
        if o is not None:
            ctx.check(ctx.And(g[0] == o[0], g[1] == o[1]), 'the written duration')
    for f, (x, d, s) in zip(full, before):
        ctx.check(ctx.And(f[0] == d, f[1] == s), 'the explicit duration')
    rhythm.PasteRhythm(got).edit_node(doc)
    for (x, d, s), o in zip(before, own):
        n = R.own(x)
        ctx.check((n is None) == (o is None), 'pasting the copy adds and removes nothing')
        if o is not None:
            ctx.check(ctx.And(n[0] == o[0], n[1] == o[1]), 'pasting the copy changes nothing')
    ctx.observe('full', full)


@harness('C10', cases=cases(2, FEW, ncopy=1) + cases(2, FEW, ncopy=2, scaling=False) + cases(3, ['note', 'unpitched'], ncopy=2, scaling=False) +
         cases(3, ['note'], ncopy=3, scaling=False, only='unpitched'),
         thorough=cases(2, FEW, ncopy=2) + cases(3, FEW, ncopy=1) + cases(3, FEW, ncopy=3, scaling=False) + cases(4, FEW, ncopy=2, scaling=False),
         bounds=BOUNDS +
         '; one or two (thorough: three) durations or None pasted, once or again and again')
def rhythm_pasted(ctx):
    """Pasted durations are what the notes get, from the start again when they are finished, if asked."""
    doc, items = R.music(ctx, [ctx.params['only']] if 'only' in ctx.params else ['note', 'skip', 'unpitched'], ctx.params['n'])
    if not fits(doc):
        return
    before = R.effective(doc)
    own = [R.own(x[0]) for x in before]
    k = ctx.params['ncopy']
    durs = []
    for i in range(k):
        if ctx.flag('d%d' % i):
            durs.append((ctx.real('d%d.dur' % i, F(1, 8), 1, 8), ctx.real('d%d.scale' % i, F(1, 2), 2, 2)))
        else:
            durs.append(None)
    cycle = ctx.flag('cycle')
    rhythm.PasteRhythm(iter(durs) if ctx.flag('iterator') else list(durs), cycle).edit_node(doc)
    prev = None
    for i, (x, d, s) in enumerate(before):
        o = R.own(x)
        if not cycle and i >= k:
            ctx.check((o is None) == (own[i] is None), 'no more than there are')
            if o is not None:
                ctx.check(ctx.And(o[0] == own[i][0], o[1] == own[i][1]), 'no more than there are')
            continue
        want = durs[i % k]
        if want is not None:
            ctx.check(o is not None, 'a duration is pasted')
            ctx.check(ctx.And(o[0] == want[0], o[1] == want[1]), 'the pasted duration')
            prev = want
        elif o is None:
            pass
        elif prev is not None:
            ctx.check(ctx.And(o[0] == prev[0], o[1] == prev[1]), 'where it is needed the last pasted duration')
        else:
            ctx.check(own[i] is not None, 'not added')
    if cycle and k and not any(d is None for d in durs):
        for i, (x, d, s) in enumerate(R.effective(doc)):
            ctx.check(ctx.And(d == durs[i % k][0], s == durs[i % k][1]), 'all effective durations')
    ctx.check(fits(doc), 'no bare duration can be read as that of the item before it')
    ctx.observe('own', [R.own(x[0]) for x in before])


@harness('C10', cases=cases(1, ['note']) + cases(2, scaling=False), thorough=cases(2),
         bounds='two (thorough: three) items with a duration of 1/1 to 1/8 with a dot or none or absent, scaling 1/2, 3 or none; '
                'transforms with log -1..2, dots -1..1, scale 1/4..2; also \\tuplet, \\partial, \\tempo and \\after')
def rhythm_transformed(ctx):
    """Every written duration is transformed, in music and in commands."""
    log, dots = ctx.size('log', -1, 2), ctx.size('dots', -1, 1)
    scale = ctx.real('scale', F(1, 4), 2, 4)
    doc, items = R.music(ctx, KINDS, ctx.params['n'], fixed=[F(1), F(3, 16), F(1, 8)])
    extra = ctx.pick('extra', [None, 'partial', 'tempo', 'tuplet'] if ctx.params['n'] == 1 else [None])
    if extra == 'partial':
        doc[0].insert(0, lily.Partial(lily.Duration.from_duration(F(3, 8), F(1, 2))))
    elif extra == 'tempo':
        doc[0].insert(0, lily.Tempo(lily.Duration(F(3, 8)), lily.EqualSign(), lily.Int(60)))
    elif extra == 'tuplet':
        doc[0].insert(0, lily.Tuplet(lily.Fraction((3, 2)), lily.Duration(F(3, 8)), lily.MusicList()))
    if not fits(doc):
        return
    nodes = [n for n in doc.descendants() if R.own(n) is not None]
    before = [R.own(n) for n in nodes]
    none = [n for n in R.durables(doc) if R.own(n) is None]
    rhythm.RhythmTransform(Transform(log, dots, scale)).edit_node(doc)
    ctx.check([id(n) for n in doc.descendants() if R.own(n) is not None] == [id(n) for n in nodes],
              'no durations are added or removed')
    for n, (d, s) in zip(nodes, before):
        l, o = D.log_dotcount(d)
        e, t = R.own(n)
        ctx.check(e == D.duration(l + log, max(0, o + dots)), 'the duration')
        if not isinstance(n, lily.Tempo):
            ctx.check(t == s * scale, 'the scaling')
        else:
            ctx.check(len(list(n[0])) == 0, 'a tempo has no scaling')
    ctx.observe('own', [R.own(n) for n in nodes])


@harness('C10', cases=cases(2) + cases(3, scaling=False), thorough=cases(3) + cases(4, scaling=False), bounds=BOUNDS)
def rhythm_removed(ctx):
    """Durations are removed where they can be; what remains is read as before."""
    doc, items = R.music(ctx, ['note', 'chord', 'skip', 'unpitched', 'note-', 'comment'], ctx.params['n'])
    if not fits(doc):
        return
    before = [(n, R.own(n)) for n in R.durables(doc)]
    rhythm.Remove().edit_node(doc)
    ctx.check(fits(doc), 'no bare duration can be read as that of the item before it')
    for i, (n, o) in enumerate(before):
        now = R.own(n)
        if isinstance(n, (lily.Skip, lily.Unpitched)):
            ctx.check(now is not None, 'a required duration is kept')
        if now is not None:
            ctx.check(ctx.And(now[0] == o[0], now[1] == o[1]), 'what is kept is the same')
        nxt = n.right_sibling()
        if not isinstance(n, (lily.Skip, lily.Unpitched)) and not isinstance(
                nxt, (lily.Unpitched, lily.SinglelineComment)):
            ctx.check(now is None, 'the duration is removed')
    ctx.observe('own', [R.own(n) for n, o in before])


@harness('C10', cases=cases(2), thorough=cases(3), bounds='two (thorough: three) items; else the same')
def rhythm_scaling_removed(ctx):
    """Scalings, or only those with a fraction, are removed and the durations stay."""
    doc, items = R.music(ctx, KINDS, ctx.params['n'])
    if not fits(doc):
        return
    fraction = ctx.flag('fraction')
    before = [(n, R.own(n)) for n in R.durables(doc)]
    (rhythm.RemoveFractionScaling if fraction else rhythm.RemoveScaling)().edit_node(doc)
    for n, o in before:
        now = R.own(n)
        ctx.check((now is None) == (o is None), 'durations are kept')
        if o is not None:
            ctx.check(now[0] == o[0], 'durations are the same')
            if fraction:
                whole = ctx.Or(o[1] == 1, o[1] == 2)
                ctx.check(now[1] == ctx.ite(whole, o[1], F(1)), 'scalings with a fraction are removed')
            else:
                ctx.check(now[1] == 1, 'scalings are removed')
    ctx.observe('own', [R.own(n) for n, o in before])


@harness('C10', cases=[dict(op=o) for o in ('remove', 'scaling', 'fraction', 'transform', 'paste', 'copy')],
         bounds='three notes with durations, any range')
def rhythm_edit_range(ctx):
    """Rhythm edits of a range leave the rest alone."""
    items = [lily.Note('c', R.dur(ctx, 'm%d' % i)) for i in range(3)]
    doc = lily.Document(lily.MusicList(*items))
    own = [R.own(n) for n in items]
    i = ctx.size('from', 0, 2)
    j = ctx.size('to', i, 2)
    end = items[j]
    while len(end):
        end = end[-1]
    r = Range.from_nodes(items[i], end, True)
    op = ctx.params['op']
    edit = dict(remove=rhythm.Remove, scaling=rhythm.RemoveScaling, fraction=rhythm.RemoveFractionScaling,
                transform=lambda: rhythm.RhythmTransform(Transform(scale=F(1, 2))),
                paste=lambda: rhythm.PasteRhythm([(F(1, 2), F(3)), (F(1, 4), F(3))]), copy=rhythm.CopyRhythm)[op]()
    result = edit.edit_range(r)
    for k, (n, o) in enumerate(zip(items, own)):
        now = R.own(n)
        if not i <= k <= j or op == 'copy':
            ctx.check(now is not None, 'kept')
            ctx.check(ctx.And(now[0] == o[0], now[1] == o[1]), 'not changed')
        elif op == 'remove':
            ctx.check(now is None, 'removed')
        elif op == 'scaling':
            ctx.check(now[1] == 1, 'scaling removed')
        elif op == 'transform':
            ctx.check(ctx.And(now[0] == o[0], now[1] * 2 == o[1]), 'transformed')
        elif op == 'paste':
            ctx.check(now == ((F(1, 2), F(3)) if (k - i) % 2 == 0 else (F(1, 4), F(3))), 'pasted')
    if op == 'copy':
        ctx.check(len(result) == j - i + 1, 'copied')
        for k in range(i, j + 1):
            ctx.check(ctx.And(result[k - i][0] == own[k][0], result[k - i][1] == own[k][1]), 'copied')


@harness('C10', cases=[dict(n=n) for n in (0, 1, 2, 3)], bounds='a duration with up to three scalings, set to any scaling or removed')
def rhythm_several_scalings(ctx):
    """A duration with several scalings is scaled by all of them, and gets the one that is set."""
    d = lily.Duration(F(1, 4))
    product = F(1)
    for i in range(ctx.params['n']):
        s = lily.DurationScaling(F(1))
        s.head = ctx.real('scale%d' % i, F(1, 2), 3, 2)
        product = product * s.head
        d.append(s)
    note = lily.Note('c', d)
    doc = lily.Document(lily.MusicList(note))
    ctx.check(note.scaling == product, 'the scaling is the product')
    how = ctx.pick('how', ['set', 'none', 'one', 'delete', 'remove', 'fraction', 'paste'])
    value = ctx.real('value', F(1, 2), 3, 2)
    want = F(1)
    if how == 'set':
        note.scaling = value
        want = value
    elif how == 'none':
        note.scaling = None
    elif how == 'one':
        note.scaling = 1
    elif how == 'delete':
        del note.scaling
    elif how == 'remove':
        rhythm.RemoveScaling().edit_node(doc)
    elif how == 'fraction':
        rhythm.RemoveFractionScaling().edit_node(doc)
        whole = ctx.Or(*[product == i for i in range(1, 28)])
        want = ctx.ite(whole, product, F(1))
    elif how == 'paste':
        rhythm.PasteRhythm([(F(1, 8), value)]).edit_node(doc)
        want = value
    ctx.check(note.scaling == want, 'the scaling that was set')
    ctx.check(note.duration == (F(1, 8) if how == 'paste' else F(1, 4)), 'the duration')
    if how != 'fraction':
        ctx.check(len(list(note / lily.Duration)) == 1 and len(list(d / lily.DurationScaling)) <= 1, 'at most one scaling')
    ctx.observe('scaling', note.scaling)
