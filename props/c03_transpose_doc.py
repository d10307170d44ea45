"""C03: transposing music in a document."""
from vs.ctx import harness
from props import common as K
from quickly.dom import lily
from quickly.node import Range
from quickly.pitch import Pitch, PitchProcessor
from quickly.transpose import AbstractTransposer, Transpose, Transposer


class Shift(AbstractTransposer):
    """Any transposer that acts the same in all octaves.

    Moves ``steps`` steps and ``octave`` octaves, and rotates the alteration by
    ``k`` quarters (in the range -1..1). All pitches it makes have names.
    """
    def __init__(self, ctx, octs=(-1, 1)):
        self.ctx = ctx
        self.octave = ctx.int('shift.octave', *octs)
        self.steps = ctx.int('shift.steps', 0, 6)
        self.k = ctx.int('shift.k', 0, 8)

    def of(self, octave, note, alter):
        n = note + self.steps
        up = self.ctx.ite(n > 6, 1, 0)
        a = alter + self.k * K.F(1, 4)
        a = a - self.ctx.ite(a > 1, K.F(9, 4), 0)
        return octave + self.octave + up, n - 7 * up, a

    def transpose(self, p):
        p.octave, p.note, p.alter = self.of(p.octave, p.note, p.alter)


KINDS = ['note', 'note=', 'rest', 'chord', 'nested', 'check', 'key', 'relative', 'relative0', 'fixed',
         'absolute', 'empty', 'comment', 'transposition']
RANGE_KINDS = ['note', 'chord', 'nested', 'key']
FIXED_KINDS = ['note', 'rest', 'chord', 'nested', 'key', 'empty', 'comment']


def key_octaves(doc):
    """The octave marks of the pitches whose octave doesn't matter."""
    return [K.marks(c) for k in doc // (lily.Key, lily.Inversion) for c in list(k)
            if isinstance(c, lily.Pitchable)]


def compare(ctx, t, doc, before, first_absolute, inside=None):
    after = K.sounding(ctx, doc, first_absolute)
    ctx.check([id(x[0]) for x in before] == [id(x[0]) for x in after], 'the same notes are there')
    for (node, p, a), (_, q, b) in zip(before, after):
        if inside and not inside(node):
            ctx.check(K.same(ctx, p, q), 'a note outside the range keeps its pitch')
            continue
        o, n, al = t.of(p.octave, p.note, p.alter)
        ctx.check(ctx.And(q.note == n, q.alter == al), 'every note is transposed')
        if a is not None:
            ctx.check(q.octave == o, 'every note is transposed to the right octave')
    ctx.observe('pitches', [[q.octave, q.note, q.alter] for _, q, b in after])



def octave_checks(doc, sounding):
    """The octave checks of notes in relative music, with the sounding pitch."""
    for n, p, m in sounding:
        if any(isinstance(a, lily.Relative) for a in n.ancestors()):
            for c in list(n):
                if isinstance(c, lily.OctCheck):
                    yield c, p


def frozen(doc):
    """The written form of pitches that never are transposed."""
    return [(c.head, K.marks(c)) for k in doc // (lily.Transposition, lily.StringTuning) for c in list(k)
            if isinstance(c, lily.Pitchable)]


def build(ctx, kinds, n, den=4):
    """A document with n items of music in a container."""
    p = ctx.params
    if p['container'] == 'fixed':
        kinds = [k for k in kinds if k in FIXED_KINDS]
    items = [K.music(ctx, 'm%d' % i, p.get('kind%d' % i) or ctx.pick('kind%d' % i, kinds), den)
             for i in range(n)]
    return lily.Document(K.container(ctx, p['container'], items, den)), items


def containers(*names):
    r = [dict(container=c, first_absolute=False)
         for c in ('list', 'relative', 'fixed', 'absolute', 'relative%', 'relative0')]
    r.append(dict(container='relative0', first_absolute=True))
    return [c for c in r if not names or c['container'] in names]


def split(cases, kinds, **more):
    """Split every case by the kind of the first item."""
    return [dict(c, kind0=k, **more) for c in cases
            for k in (FIXED_KINDS if c['container'] == 'fixed' else kinds)]


def split2(cases, kinds, **more):
    return [dict(c, kind1=k) for c in split(cases, kinds, **more)
            for k in (FIXED_KINDS if c['container'] == 'fixed' else kinds)]


@harness('C03', cases=split(containers(), KINDS, n=2) + [dict(container='list', first_absolute=False, kind0='inversion', n=2)], thorough=split2(containers(), KINDS, n=3),
         bounds='two (thorough: three) items of any kind in any container; pitches: any note, alter in quarters '
                '-1..1, octave marks -2..2; any octave-equivariant transposer within -1..1 octaves')
def transpose_document(ctx):
    """Transposing a document gives every sounding pitch the transposed pitch."""
    lang = K.symbolic_language(ctx)
    fa = ctx.params['first_absolute']
    doc, items = build(ctx, KINDS, ctx.params['n'])
    before = K.sounding(ctx, doc, fa)
    keys = key_octaves(doc)
    for c, p in octave_checks(doc, before):
        c.head = p.octave + 1       # checks that succeed
    ice = frozen(doc)
    t = Shift(ctx)
    Transpose(t, PitchProcessor(lang), fa).edit_node(doc)
    compare(ctx, t, doc, before, fa)
    for c, p in octave_checks(doc, K.sounding(ctx, doc, fa)):
        ctx.check(c.head == p.octave + 1, 'octave checks follow the pitch')
    for a, b in zip(keys, key_octaves(doc)):
        ctx.check(a == b, 'the octave of a key or inversion pitch is kept')
    for (a, b), (c, d) in zip(ice, frozen(doc)):
        ctx.check(ctx.And(a == c, b == d), 'transposition and string tuning pitches are kept')


@harness('C03', cases=[dict(container=c, first_absolute=False, kind0=a, kind1=b)
                       for c in ('list', 'relative') for a in ('note', 'chord', 'transpose', 'chordmode') for b in ('note', 'transpose')
                       if a != 'chordmode'] +
                      [dict(container='transpose', first_absolute=False, kind0=a, kind1='note')
                       for a in ('note', 'chord', 'relative', 'transpose')],
         bounds='two items, in or around \\transpose; transposer: any steps, octave -1..1, alteration kept')
def transpose_nested(ctx):
    """Music inside \\transpose moves by the interval, wherever it stands."""
    lang = K.symbolic_language(ctx)
    doc, items = build(ctx, KINDS, 2)
    before = K.sounding(ctx, doc, False, K.step)
    t = Shift(ctx)
    t.k = 0
    Transpose(t, PitchProcessor(lang), False).edit_node(doc)
    after = K.sounding(ctx, doc, False, K.step)
    ctx.check([id(x[0]) for x in before] == [id(x[0]) for x in after], 'the same notes are there')
    for (_, p, a), (_, q, b) in zip(before, after):
        ctx.check(b - a == t.octave * 7 + t.steps, 'every note moves by the interval')
        ctx.check(q.alter == p.alter, 'alteration kept')
    ctx.observe('steps', [b for _, q, b in after])


INTERVAL_CASES = [dict(container=c['container'], first_absolute=c['first_absolute'], kind0=k)
                  for c in containers() for k in ('note', 'key') if c['container'] != 'relative%']
SMALL_INTERVAL = ('relative', 'fixed')


@harness('C03', cases=[dict(c, small=c['container'] in SMALL_INTERVAL) for c in INTERVAL_CASES],
         thorough=[dict(c, small=False) for c in INTERVAL_CASES] +
                  [dict(container=c, first_absolute=False, kind0='chord', small=c == 'relative')
                   for c in ('list', 'relative')],
         bounds='the real Transposer: any interval between pitches with alterations in halves -1..1, octave -1..1 '
                '(quick: in relative and fixed music starting from c); one note or key (thorough: chord) in any container')
def transpose_document_interval(ctx):
    """Transposing with a real interval moves every sounding note exactly by that interval."""
    lang = K.symbolic_language(ctx)
    fa = ctx.params['first_absolute']
    doc, items = build(ctx, KINDS, 1, 2)
    before = K.sounding(ctx, doc, fa)
    a = Pitch(0, 0, 0) if ctx.params['small'] else K.pitch(ctx, 'tf', 2, octs=(0, 0))
    b = K.pitch(ctx, 'tt', 2, octs=(-1, 1))
    d = K.height(ctx, b) - K.height(ctx, a)
    Transpose(Transposer(a, b), PitchProcessor(lang), fa).edit_node(doc)
    after = K.sounding(ctx, doc, fa)
    for (_, p, x), (_, q, y) in zip(before, after):
        if x is not None:
            ctx.check(y - x == d, 'every note moves by the interval')
        else:
            h = K.height(ctx, q) - K.height(ctx, p) - d
            ctx.check(ctx.Or(*[h == 12 * i for i in range(-4, 5)]), 'key pitch moves by the interval')
    ctx.observe('heights', [y for _, q, y in after])


@harness('C03', cases=split(containers(), RANGE_KINDS, n=2), thorough=split2(containers(), RANGE_KINDS, n=3),
         bounds='two (thorough: three) items, any range from one item to another; other bounds as transpose_document')
def transpose_range(ctx):
    """Transposing a range transposes the notes in it and leaves alone what is written outside it."""
    lang = K.symbolic_language(ctx)
    fa = ctx.params['first_absolute']
    n = ctx.params['n']
    doc, items = build(ctx, RANGE_KINDS, n)
    i = ctx.size('from', 0, n - 1)
    j = ctx.size('to', i, n - 1)
    inside = set(id(x) for item in items[i:j+1] for x in [item] + list(item.descendants()))
    outside = [x for x in doc // lily.Pitchable if id(x) not in inside]
    written = [(x.head, K.marks(x)) for x in outside]
    before = K.sounding(ctx, doc, fa)
    t = Shift(ctx)
    end = items[j]
    while len(end):
        end = end[-1]       # the children of the end node are not in a range
    Transpose(t, PitchProcessor(lang), fa).edit_range(Range.from_nodes(items[i], end, True))
    for x, (h, m) in zip(outside, written):
        ctx.check(ctx.And(x.head == h, K.marks(x) == m), 'notes outside the range are not changed')
    after = K.sounding(ctx, doc, fa)
    ctx.check([id(x[0]) for x in before] == [id(x[0]) for x in after], 'the same notes are there')
    for (node, p, a), (_, q, b) in zip(before, after):
        if id(node) in inside:
            o, nt, al = t.of(p.octave, p.note, p.alter)
            ctx.check(ctx.And(q.note == nt, q.alter == al), 'notes in the range are transposed')
            if a is not None:
                ctx.check(q.octave == o, 'notes in the range are transposed to the right octave')


@harness('C03', cases=containers('list', 'relative', 'fixed'),
         bounds='one note or chord, the language is set by the document, before or inside the music')
def transpose_language(ctx):
    """The pitch language set in the document is followed."""
    lang = K.symbolic_language(ctx)
    fa = ctx.params['first_absolute']
    doc, items = build(ctx, ['note', 'chord'], 1)
    language = lily.Language(lily.String(lang))
    where = ctx.pick('where', ['before', 'inside', 'sub'])
    if where == 'inside':
        ml = items[0].parent
        if ctx.params['container'] != 'list':
            where = 'before'
    if where == 'inside':
        ml.insert(0, language)
    else:
        doc.insert(0, language)
    before = K.sounding(ctx, doc, fa)
    t = Shift(ctx)
    node = doc[-1] if where == 'sub' else doc
    Transpose(t, PitchProcessor('italiano'), fa).edit_node(node)
    compare(ctx, t, doc, before, fa)
