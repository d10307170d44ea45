"""C06: MIDI keys and key signatures."""
from vs.ctx import harness
from quickly import key
from quickly.pitch import Pitch
from quickly.dom import lily, scm
from quickly.pitch import PitchProcessor
from props import common as K

BLACK = (K.F(1, 2), K.F(3, 2), 3, 4, 5)
# intervals of the modes in semitones from the tonic
MODES = dict(
    major=(0, 2, 4, 5, 7, 9, 11), ionian=(0, 2, 4, 5, 7, 9, 11), dorian=(0, 2, 3, 5, 7, 9, 10),
    phrygian=(0, 1, 3, 5, 7, 8, 10), lydian=(0, 2, 4, 6, 7, 9, 11), mixolydian=(0, 2, 4, 5, 7, 9, 10),
    minor=(0, 2, 3, 5, 7, 8, 10), aeolian=(0, 2, 3, 5, 7, 8, 10), locrian=(0, 1, 3, 5, 6, 8, 10))


def flats(ctx):
    return tuple(float(b) for i, b in enumerate(BLACK) if ctx.flag('flat%d' % i))


@harness('C06', bounds='any key -12..150, any set of flats for the five black keys')
def midi_pitch(ctx):
    """A MIDI key becomes a pitch that has that MIDI key, with a flat or sharp as asked."""
    k = ctx.int('key', -12, 150)
    if ctx.flag('default'):
        f, p = (1.5, 5), Pitch.from_midi(k)
    else:
        f = flats(ctx)
        p = Pitch.from_midi(k, flats=f)
    ctx.check(p.to_midi() == k, 'the MIDI key is the same')
    ctx.check(K.height(ctx, p) == k - 60, 'the pitch is right')
    white = ctx.Or(*[k % 12 == s for s in K.SCALE2])
    flat = ctx.Or(*[k % 12 == int(x * 2) for x in f])
    ctx.check(p.alter == ctx.ite(white, 0, ctx.ite(flat, -0.5, 0.5)), 'flats where asked, else sharps')
    ctx.check(ctx.And(p.note >= 0, p.note <= 6), 'a note')
    ctx.observe('p', [p.octave, p.note, p.alter])


@harness('C06', bounds='any pitch, alter in halves -1..1, octave -4..4, moved by -2..2 octaves')
def midi_of_pitch(ctx):
    """The MIDI key is the height in semitones (c' is 60)."""
    for kind in ('float', 'fraction'):
        p = K.pitch(ctx, 'p' + kind, 2, kind)
        ctx.check(p.to_midi() == K.height(ctx, p) + 60, 'height')
        ctx.observe(kind, p.to_midi())


@harness('C06', cases=[dict(mode=m) for m in MODES],
         bounds='every standard mode, any tonic with alter in quarters -1..1')
def key_scale(ctx):
    """The accidentals of a key make the intervals of its mode."""
    note, alter = ctx.int('note', 0, 6), ctx.real('alter', -1, 1, 4)
    sig = key.KeySignature(note, alter, ctx.params['mode'])
    accs = sig.accidentals
    ctx.check(len(accs) == 7, 'seven accidentals')
    base = Pitch(0, note, alter)
    for i, interval in enumerate(MODES[ctx.params['mode']]):
        n = note + i
        up = ctx.ite(n > 6, 1, 0)
        n = n - 7 * up
        p = Pitch(up, n, ctx.at(accs, n))
        ctx.check(K.height(ctx, p) - K.height(ctx, base) == interval, 'the interval of every step')
    ctx.observe('accs', accs)


@harness('C06', cases=[dict(steps=[i, (i + 2) % 7]) for i in range(7)],
         thorough=[dict(steps=[i, j, k]) for i in range(7) for j in range(i) for k in range(j)],
         bounds='any custom mode with two (thorough: three) alterations in halves -1..1, any tonic with alter in halves -1..1')
def key_custom_mode(ctx):
    """A custom mode gives accidentals by its own alterations from the major scale of the tonic."""
    note, alter = ctx.int('note', 0, 6), ctx.real('alter', -1, 1, 2)
    mode = [ctx.real('mode%d' % i, -1, 1, 2) if i in ctx.params['steps'] else 0 for i in range(7)]
    major = key.KeySignature(note, alter).accidentals
    accs = key.KeySignature(note, alter, mode).accidentals
    for i in range(7):
        n = note + i
        n = n - 7 * ctx.ite(n > 6, 1, 0)
        ctx.check(ctx.at(accs, n) - ctx.at(major, n) == mode[i], 'every step')
    ctx.observe('accs', accs)


@harness('C06', cases=[dict(mode=m, part=i) for m in MODES for i in (0, 1)],
         bounds='every standard mode, tonic with alter in halves -1..1, any key 0..130; default flats, all and none')
def key_midi(ctx):
    """A key signature spells every MIDI key so that it sounds the same, using its scale notes."""
    note = ctx.size('note', 0, 6)
    alter = ctx.pick('alter', [0, 0.5, -0.5] if ctx.params['part'] else [1, -1])
    sig = key.KeySignature(note, alter, ctx.params['mode'])
    f = ctx.pick('flats', [None, (0.5, 1.5, 3, 4, 5), (), (.5, 4)])
    # the outcome depends on the key in its octave
    k = 12 * ctx.int('oct', 0, 10) + ctx.size('step', 0, 11)
    p = sig.pitch(k) if f is None else sig.pitch(k, f)
    ctx.check(K.height(ctx, p) == k - 60, 'the pitch is right')
    ctx.check(p.to_midi() == k, 'the MIDI key is the same')
    on = False
    for n in range(7):
        on = ctx.Or(on, (K.SCALE2[n] + int(sig.accidentals[n] * 2) - k) % 12 == 0)
    ctx.check(ctx.Implies(on, ctx.at(sig.accidentals, p.note) == p.alter), 'notes of the scale are used')
    ctx.observe('p', [p.octave, p.note, p.alter])


@harness('C06', bounds='-14 to 14 sharps')
def key_tonic(ctx):
    """The tonic for a number of sharps or flats has a key with so many."""
    sf = ctx.int('sf', -14, 14)
    note, alter = key.tonic(sf)
    accs = key.accidentals(note, alter)
    total = 0
    for a in accs:
        total = total + a * 2
    ctx.check(total == sf, 'the number of sharps or flats')
    ctx.observe('tonic', [note, alter])


@harness('C06', bounds='any \\key with a tonic (alter in quarters) and a mode name, a variable or scheme list')
def key_node(ctx):
    """The key signature of a \\key command."""
    lang = K.symbolic_language(ctx)
    note, alter = ctx.int('note', 0, 6), ctx.real('alter', -1, 1, 4)
    mode = ctx.pick('mode', sorted(MODES))
    p = lily.Pitch(K.head(ctx, note, alter), lily.Octave(ctx.int('oct', -2, 2)))
    how = ctx.pick('how', ['mode', 'variable', 'comment'])
    doc = lily.Document()
    if how == 'variable':
        doc.append(lily.Assignment.with_name('amode', lily.Mode(mode)))
        doc.append(lily.Key(p, lily.IdentifierRef.with_name('amode')))
    elif how == 'comment':
        doc.append(lily.Key(lily.SinglelineComment('x'), p, lily.Mode(mode)))
    else:
        doc.append(lily.Key(p, lily.Mode(mode)))
    sig = doc[-1].key_signature(PitchProcessor(lang))
    ctx.check(ctx.And(sig.note == note, sig.alter == alter), 'tonic')
    ref = key.KeySignature(note, alter, mode)
    for a, b in zip(sig.accidentals, ref.accidentals):
        ctx.check(a == b, 'accidentals')
    ctx.observe('accs', sig.accidentals)
