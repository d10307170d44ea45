"""Music with durations for C09, C10 and C11."""
from quickly.dom import lily
from props import common as K

F = K.F

# what an item is, and whether it always needs a duration
ITEMS = ['note', 'chord', 'rest', 'space', 'q', 'skip', 'unpitched', 'note-', 'drum', 'comment', 'bar', 'hyphen']
# what takes time of its own
TIMED = (lily.Note, lily.Chord, lily.Rest, lily.MultiMeasureRest, lily.Space, lily.Skip, lily.Q, lily.Drum, lily.Unpitched, lily.PitchedRest, lily.LyricText, lily.LyricItem,
         lily.LyricSkip, lily.Figure)
LYRICS = ['text', 'lyricskip', 'string', 'empty']


def dur(ctx, name, fixed=None):
    """A Duration node with any value, and maybe a scaling."""
    if fixed:
        d = lily.Duration(ctx.pick(name + '.dur', fixed))
    else:
        d = lily.Duration(F(1))
        d.head = ctx.real(name + '.dur', F(1, 8), F(1), 8)
    s = ctx.flag(name + '.scaling') if ctx.params.get('scaling', True) else False
    if s:
        n = lily.DurationScaling(F(1))
        n.head = ctx.real(name + '.scale', F(1, 2), 2, 2) if not fixed else ctx.pick(name + '.scale', [F(1, 2), 3])
        d.append(n)
    return d


def item(ctx, name, kind, fixed=None, bare=None):
    """One item of music; with a duration or not."""
    D = lambda: dur(ctx, name, fixed)
    if kind in ('unpitched', 'skip', 'empty'):
        c = [D()]
    elif kind in ('comment', 'bar', 'hyphen'):
        c = []
    else:
        c = [D()] if (ctx.flag(name + '.has') if bare is None else not bare) else []
    if kind == 'note':
        return lily.Note('c', *c)
    if kind == 'note-':
        return lily.Note('c', *c, lily.Articulations(lily.Articulation('.')))
    if kind == 'chord':
        return lily.Chord(lily.ChordBody(lily.Note('c'), lily.Note('e')), *c)
    if kind == 'rest':
        return lily.Rest(*c)
    if kind == 'space':
        return lily.Space(*c)
    if kind == 'q':
        return lily.Q(*c)
    if kind == 'drum':
        return lily.Drum('bd', *c) if name.endswith('0') else lily.Figure(lily.FigureBody(lily.FigureStep(6)), *c)
    if kind == 'skip':
        return lily.Skip(*c)
    if kind == 'unpitched':
        return lily.Unpitched(*c)
    if kind == 'comment':
        return lily.SinglelineComment(' text')
    if kind == 'bar':
        return lily.PipeSymbol()
    if kind == 'nested':
        return lily.MusicList(lily.Note('c', *c))
    if kind == 'text':
        return lily.LyricText('la', *c)
    if kind == 'lyricskip':
        return lily.LyricSkip(*c)
    if kind == 'string':
        return lily.LyricItem(lily.String('la'), *c)
    if kind == 'empty':
        return lily.LyricItem(*c)
    if kind == 'hyphen':
        return lily.LyricHyphen()
    raise KeyError(kind)


def durables(node):
    """The items that take time, with a duration of their own."""
    return [n for n in node.descendants() if isinstance(n, TIMED) and not isinstance(n.parent, lily.ChordBody)]


def own(node):
    """(duration, scaling) written at the node, or None."""
    for d in list(node):
        if isinstance(d, lily.Duration):
            s = F(1)
            for c in list(d):
                if isinstance(c, lily.DurationScaling):
                    s = s * c.head
            return d.head, s
    return None


def effective(node, prev=(F(1, 4), F(1))):
    """[(node, duration, scaling)] by LilyPond's rules: a missing duration is the previous one."""
    result = []
    for n in durables(node):
        d = own(n)
        if d is None:
            d = prev
        elif not isinstance(n, lily.Skip):
            prev = d
        result.append((n, d[0], d[1]))
    return result


def ambiguous(node):
    """An item without a duration that a following bare duration would belong to."""
    for n in durables(node):
        if own(n) is None and not any(isinstance(c, lily.Articulations) for c in list(n)):
            sib = list(n.parent)
            i = [id(x) for x in sib].index(id(n)) + 1
            while i < len(sib) and isinstance(sib[i], (lily.SinglelineComment, lily.MultilineComment)):
                i += 1
            if i < len(sib):
                s = sib[i]
                if isinstance(s, lily.Unpitched) or (isinstance(s, lily.LyricItem) and not any(
                        isinstance(c, lily.String) for c in list(s))):
                    return True
    return False


def same(ctx, a, b, label):
    ctx.check([id(x[0]) for x in a] == [id(x[0]) for x in b], 'the same notes are there')
    for (_, d, s), (_, e, t) in zip(a, b):
        ctx.check(ctx.And(d == e, s == t), label)


def music(ctx, kinds, n, first=None, fixed=None):
    p = ctx.params
    items = [item(ctx, 'm%d' % i, p.get('kind%d' % i) or ctx.pick('kind%d' % i, kinds), fixed) for i in range(n)]
    doc = lily.Document(lily.MusicList(*items))
    return doc, items


def split(cases, key, kinds):
    return [dict(c, **{key: k}) for c in cases for k in kinds]
