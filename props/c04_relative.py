"""C04: converting between relative and absolute pitches."""
from vs.ctx import harness
from props import common as K
from quickly.dom import lily
from quickly.node import Range
from quickly.pitch import Pitch, PitchProcessor
from quickly.relative import Rel2abs, Abs2rel

REL_KINDS = ['note', 'rest', 'chord', 'chord1', 'empty', 'nested', 'check', 'key', 'relative', 'relative0',
             'fixed', 'absolute', 'transpose', 'comment', 'transposition']
ABS_KINDS = ['note', 'rest', 'chord', 'chord1', 'empty', 'nested', 'check', 'key', 'relative', 'relative0',
             'fixed', 'absolute', 'transpose', 'comment', 'transposition', 'skip']
RELS = [dict(container='relative', fa=False), dict(container='relative%', fa=False),
        dict(container='relative0', fa=False), dict(container='relative0', fa=True)]


def build(ctx, kinds, n, wrap=None, den=4):
    p = ctx.params
    items = [K.music(ctx, 'm%d' % i, p.get('kind%d' % i) or ctx.pick('kind%d' % i, kinds), den)
             for i in range(n)]
    node = K.container(ctx, p['container'], items, den)
    return lily.Document(node), items


def pitches(ctx, x):
    return [[p.octave, p.note, p.alter] for n, p, m in x if m is not None]


def compare(ctx, before, after, doc):
    """Octave checks may disappear, everything else keeps its pitch."""
    ctx.check([id(x[0]) for x in before] == [id(x[0]) for x in after], 'the same notes are there')
    for (n, p, m), (_, q, _) in zip(before, after):
        if m is None:
            ctx.check(ctx.And(p.note == q.note, p.alter == q.alter), 'a key keeps its pitch')
        else:
            ctx.check(K.same(ctx, p, q), 'every note keeps its pitch')
    ctx.observe('pitches', pitches(ctx, after))


def split(cases, key, kinds, **more):
    return [dict(c, **{key: k}, **more) for c in cases for k in kinds]


@harness('C04', cases=split(RELS, 'kind0', REL_KINDS, n=2), thorough=split(split(RELS, 'kind0', REL_KINDS), 'kind1', REL_KINDS, n=3),
         bounds='\\relative with or without start pitch (before or since 2.18), with two (thorough: three) '
                'items of any kind and any pitches: alter in quarters, octave marks -2..2')
def relative_to_absolute(ctx):
    """Converting relative music to absolute keeps every pitch and leaves no \\relative."""
    lang = K.symbolic_language(ctx)
    fa = ctx.params['fa']
    doc, items = build(ctx, REL_KINDS, ctx.params['n'])
    before = K.sounding(ctx, doc, fa)
    written = [(x.head, K.marks(x)) for x in doc // lily.Pitch if isinstance(x.parent, (lily.Key, lily.Fixed, lily.Transpose, lily.Transposition))]
    Rel2abs(PitchProcessor(lang), fa).edit_node(doc)
    starts = [n for n in doc // lily.Relative]
    ctx.check(not [n for n in doc // lily.Relative if not n << (lily.Fixed, lily.Transpose)], 'no \\relative is left')
    keep = set(id(n) for n in doc.descendants())
    before = [x for x in before if id(x[0]) in keep]
    compare(ctx, before, K.sounding(ctx, doc, fa), doc)
    after = [(x.head, K.marks(x)) for x in doc // lily.Pitch if isinstance(x.parent, (lily.Key, lily.Fixed, lily.Transpose, lily.Transposition))]
    ctx.check(len(written) == len(after), 'pitches that are no notes are still there')
    for (h, m), (g, k) in zip(written, after):
        ctx.check(ctx.And(h == g, m == k), 'pitches that are no notes stay as they are')
    for n in items:
        if not isinstance(n, (lily.OctaveCheck, lily.Relative)):
            ctx.check(id(n) in keep, 'the music is still there')
        if isinstance(n, lily.Relative):
            ctx.check(id(n[-1]) in keep, 'the music of a nested \\relative is still there')


@harness('C04', cases=split([dict(container='list', start=s, fa=f) for s, f in ((True, False), (False, False), (False, True))],
                            'kind0', ABS_KINDS, n=2),
         thorough=split(split([dict(container='list', start=s, fa=f) for s, f in ((True, False), (False, False), (False, True))],
                        'kind0', ABS_KINDS), 'kind1', ABS_KINDS, n=3),
         bounds='a music list of two (thorough: three) items of any kind and any pitches: alter in quarters, '
                'octave marks -2..2; written with a start pitch or without (before or since 2.18)')
def absolute_to_relative(ctx):
    """Converting absolute music to relative keeps every pitch."""
    lang = K.symbolic_language(ctx)
    fa = ctx.params['fa']
    doc, items = build(ctx, ABS_KINDS, ctx.params['n'])
    before = K.sounding(ctx, doc, fa)
    Abs2rel(PitchProcessor(lang), ctx.params['start'], fa).edit_node(doc)
    starts = set()
    for r in doc // lily.Relative:
        nodes = [c for c in r if not isinstance(c, lily.SinglelineComment)]
        if len(nodes) > 1:
            starts.add(id(nodes[0]))
    after = [x for x in K.sounding(ctx, doc, fa)]
    compare(ctx, before, after, doc)
    keep = set(id(n) for n in doc.descendants())
    ctx.check(all(id(n) in keep for n in items), 'the music is still there')
    if any(isinstance(n, (lily.Note, lily.Chord, lily.PitchedRest)) for n in items):
        ctx.check(isinstance(doc[0], lily.Relative), 'the music is now relative')
        has_pitch = any(not isinstance(n, lily.Chord) or any(n // lily.Pitchable) for n in items
                        if isinstance(n, (lily.Note, lily.Chord, lily.PitchedRest)))
        if has_pitch and ctx.params['start'] and not any(isinstance(n, lily.OctaveCheck) for n in items):
            ctx.check(isinstance(doc[0][0], lily.Pitch), 'a start pitch is written')
        if not ctx.params['start']:
            ctx.check(not isinstance(doc[0][0], lily.Pitch), 'no start pitch is written')


@harness('C04', cases=split([dict(container='list', start=s, fa=f) for s, f in ((True, False), (False, False), (False, True))],
                            'kind0', ['note', 'rest', 'chord', 'nested', 'empty'], n=3),
         bounds='a music list of three notes, rests, chords and nested lists; alter in quarters, octave marks -2..2')
def relative_roundtrip(ctx):
    """Absolute to relative and back gives the very same notes."""
    lang = K.symbolic_language(ctx)
    fa = ctx.params['fa']
    doc, items = build(ctx, ['note', 'chord'], ctx.params['n'])
    before = [(id(n), n.head, K.marks(n)) for n in doc // lily.Pitchable]
    Abs2rel(PitchProcessor(lang), ctx.params['start'], fa).edit_node(doc)
    Rel2abs(PitchProcessor(lang), fa).edit_node(doc)
    after = [(id(n), n.head, K.marks(n)) for n in doc // lily.Pitchable]
    ctx.check([a[0] for a in before] == [a[0] for a in after], 'the same notes')
    for (_, h, m), (_, g, k) in zip(before, after):
        ctx.check(ctx.And(h == g, m == k), 'every note is written as it was')
    ctx.check(len(doc) == 1 and isinstance(doc[0], lily.MusicList), 'the same structure')


@harness('C04', bounds='any two pitches, alter in quarters, octaves -4..4; default octave -1..1')
def pitch_relative(ctx):
    """Making a pitch relative and absolute again gives the pitch; the distance is what LilyPond makes of it."""
    prev, p = K.pitch(ctx, 'prev'), K.pitch(ctx, 'p')
    d = ctx.int('default', -1, 1)
    q = p.copy()
    q.make_relative(prev, d)
    rel = q.octave - d
    r = q.copy()
    r.make_absolute(prev, d)
    ctx.check(K.same(ctx, r, p), 'back again')
    # octave marks: 0 if the pitch is the nearest one, at most a fourth away
    away = K.step(ctx, p) - K.step(ctx, prev)
    ctx.check(ctx.And(away - 7 * rel <= 3, away - 7 * rel >= -3), 'without the marks it is at most a fourth away')
    ctx.check(ctx.And(q.note == p.note, q.alter == p.alter), 'the note is kept')
    ctx.observe('marks', rel)


@harness('C04', cases=[dict(fa=f, kind=k) for f in (False, True) for k in ('note', 'chord', 'nested')],
         bounds='the LilyPond version in the document 2.16 to 2.19, or none; one item')
def relative_version(ctx):
    """How the first pitch is read depends on the version in the document."""
    lang = K.symbolic_language(ctx)
    item = K.music(ctx, 'm', ctx.params['kind'], 2)
    doc = lily.Document(lily.Relative(lily.MusicList(item)))
    if ctx.params['fa']:
        v = ctx.pick('version', ['2.18.0', '2.18', '2.19.1', '3.0'])
        doc.insert(0, lily.Version(lily.String(v)))
    else:
        v = ctx.pick('version', ['2.17.99', '2.16.2', '2.4', None])
        if v:
            doc.insert(0, lily.Version(lily.String(v)))
    before = K.sounding(ctx, doc, ctx.params['fa'])
    Rel2abs(PitchProcessor(lang)).edit_node(doc)
    compare(ctx, before, K.sounding(ctx, doc, ctx.params['fa']), doc)


@harness('C04', cases=[dict(which=i) for i in range(2)],
         bounds='two expressions of a note and a chord, one of them selected')
def relative_selection(ctx):
    """Only the selected expression is converted."""
    lang = K.symbolic_language(ctx)
    ls = [lily.MusicList(K.music(ctx, 'm%d' % i, 'note', 2), K.music(ctx, 'n%d' % i, 'chord', 2)) for i in range(2)]
    rel = ctx.flag('rel2abs')
    exps = [lily.Relative(K.a_note(ctx, 's%d' % i, den=2, cls=lily.Pitch), l) for i, l in enumerate(ls)] if rel else ls
    doc = lily.Document(*exps)
    i = ctx.params['which']
    other = [(n.head, K.marks(n)) for n in exps[1 - i] // lily.Pitchable]
    before = K.sounding(ctx, doc, False)
    end = exps[i]
    while len(end):
        end = end[-1]
    r = Range.from_nodes(exps[i], end, True)
    if rel:
        Rel2abs(PitchProcessor(lang), False).edit_range(r)
        ctx.check(isinstance(doc[i], lily.MusicList), 'the selected expression is absolute')
        ctx.check(doc[1 - i] is exps[1 - i], 'the other one is not')
    else:
        Abs2rel(PitchProcessor(lang), True).edit_range(r)
        ctx.check(isinstance(doc[i], lily.Relative), 'the selected expression is relative')
        ctx.check(doc[1 - i] is exps[1 - i], 'the other one is not')
    compare(ctx, before, K.sounding(ctx, doc, False), doc)
    for (h, m), n in zip(other, doc[1 - i] // lily.Pitchable):
        ctx.check(ctx.And(n.head == h, K.marks(n) == m), 'the other one is not changed')
