"""C35: pitches, properties and how they compare."""
from fractions import Fraction

from parce.lang.lilypond_words import pitch_names
from quickly.datatypes import Properties
from quickly.pitch import Pitch
from vs.ctx import harness

F = Fraction


def pitch(ctx, name):
    return Pitch(ctx.int(name + '.octave', -9, 9), ctx.int(name + '.note', 0, 6), ctx.real(name + '.alter', F(-2), F(2), 4))


def less(ctx, a, b):
    """The order of pitches: octave, note, alteration."""
    return ctx.Or(a.octave < b.octave, ctx.And(a.octave == b.octave, a.note < b.note),
                  ctx.And(a.octave == b.octave, a.note == b.note, a.alter < b.alter))


def alike(ctx, a, b):
    return ctx.And(a.octave == b.octave, a.note == b.note, a.alter == b.alter)


@harness('C35', bounds='three pitches in octaves from -9 to 9, with quarter tone alterations up to two whole tones')
def pitches_ordered(ctx):
    """Pitches are equal if all of octave, note and alteration are, and ordered by octave, then note, then alteration."""
    a, b = pitch(ctx, 'a'), pitch(ctx, 'b')
    lt, eq = less(ctx, a, b), alike(ctx, a, b)
    same = lambda x, y: ctx.Or(ctx.And(x, y), ctx.And(ctx.Not(x), ctx.Not(y)))
    got = {}
    for name, f in (('==', lambda: a == b), ('!=', lambda: a != b), ('<', lambda: a < b), ('<=', lambda: a <= b), ('>', lambda: a > b), ('>=', lambda: a >= b)):
        got[name] = True if ctx.call(f) else False
    ctx.observe('got', got)
    for name, want in (('==', eq), ('!=', ctx.Not(eq)), ('<', lt), ('<=', ctx.Or(lt, eq)), ('>', ctx.Not(ctx.Or(lt, eq))), ('>=', ctx.Not(lt))):
        ctx.check(same(got[name], want), 'a %s b' % name)


@harness('C35', bounds='a pitch in octaves from -9 to 9')
def pitch_others(ctx):
    """A pitch is never equal to something that is no pitch, and has no order with it; a copy is equal and independent."""
    a = pitch(ctx, 'a')
    other = ctx.pick('other', (None, 1, 'c', (0, 0, 0), [0, 0, 0]))
    ctx.check(ctx.call(lambda: a == other) is False and ctx.call(lambda: a != other) is True, 'not equal')
    for f in (lambda: a < other, lambda: a <= other, lambda: a > other, lambda: a >= other):
        try:
            ctx.call(f)
        except TypeError:
            continue
        ctx.check(False, 'no order')
    b = ctx.call(lambda: a.copy())
    ctx.check(b is not a and type(b) is Pitch, 'a copy')
    ctx.check(alike(ctx, a, b), 'the same octave, note and alteration')
    octave = a.octave
    b.octave = b.octave + 1
    ctx.check(a.octave == octave, 'the copy is independent')
    ctx.check(True if ctx.call(lambda: a != b) else False, 'not equal any more')


DUTCH = {v: k for k, v in sorted(pitch_names['nederlands'].items(), reverse=True)}
NAMES = {}
for _name, (_octave, _note, _alter) in pitch_names['nederlands'].items():
    NAMES.setdefault((_note, F(_alter)), []).append(_name)
ALTERS = [F(n, 4) for n in range(-8, 9)]


@harness('C35', cases=[dict(note=n) for n in range(7)], bounds='all notes, octaves from -5 to 5 and quarter tone alterations up to two whole tones')
def pitch_formatted(ctx):
    """A formatted pitch is its Dutch name and octave, or a question mark if it has no name; in as many columns as wanted."""
    p = Pitch(ctx.int('octave', -5, 5), ctx.params['note'], ctx.pick('alter', tuple(ALTERS)))
    s = ctx.call(lambda: format(p, ''))
    ctx.observe('text', s)
    names = NAMES.get((p.note, p.alter))
    if not names:
        ctx.check(s == '?', 'no name')
        return
    for n in names:
        default = pitch_names['nederlands'][n][0]
        if len(s) >= len(n) and s[:len(n)] == n:
            marks = s[len(n):]
            count = p.octave - default
            if all(m == "'" for m in marks) and count == len(marks) or all(m == ',' for m in marks) and count == -len(marks):
                return
    ctx.check(False, 'the name and octave')


KEYS = ('aa', 'bb', 'cc')


def properties(ctx, name):
    d = {}
    for k in KEYS:
        what = ctx.pick(name + k, ('none', 'value', 'absent'))
        if what != 'absent':
            d[k] = None if what == 'none' else ctx.int(name + k + 'value', -99, 99)
    return d, Properties(**d)


def holds(ctx, p, d):
    """Whether the properties are those of the dict, and no others."""
    if set(vars(p)) != set(d):
        return False
    return ctx.And(*((d[k] is None and vars(p)[k] is None) or (d[k] is not None and vars(p)[k] is not None and vars(p)[k] == d[k]) for k in d))


@harness('C35', bounds='two sets of properties with three names, each absent, None or a number from -99 to 99')
def properties_added(ctx):
    """Adding properties gives new ones with all names, of which the second set counts; both stay what they were."""
    d1, p1 = properties(ctx, 'p')
    d2, p2 = properties(ctx, 'q')
    r = ctx.call(lambda: p1 + p2)
    ctx.check(r is not p1 and r is not p2, 'new properties')
    ctx.check(holds(ctx, r, {**d1, **d2}), 'all names, with the last values')
    ctx.check(ctx.And(holds(ctx, p1, d1), holds(ctx, p2, d2)), 'unchanged')
    eq = True if ctx.call(lambda: p1 == p2) else False
    ctx.check(eq == (True if holds(ctx, p1, d2) else False), 'equal if all are')
    ctx.observe('eq', eq)


@harness('C35', bounds='properties with three names, each absent, None or a number from -99 to 99')
def properties_access(ctx):
    """A name that is there has its value, another is None; names can be set and deleted, also if they are not there."""
    d, p = properties(ctx, 'p')
    ctx.check((True if ctx.call(lambda: bool(p)) else False) == bool(d), 'false if there are none')
    for k in KEYS + ('dd',):
        value = ctx.call(lambda: getattr(p, k))
        ctx.check(value is None if d.get(k) is None else value == d[k], 'the value or None')
        ctx.check((True if ctx.call(lambda: k in p) else False) == (k in d), 'whether it is there')
    k = ctx.pick('key', KEYS)
    if ctx.flag('delete'):
        ctx.call(lambda: delattr(p, k))
        d.pop(k, None)
    else:
        d[k] = ctx.int('value', -99, 99)
        ctx.call(lambda: setattr(p, k, d[k]))
    ctx.check(holds(ctx, p, d), 'after a change')
    ctx.check(ctx.call(lambda: p == ctx.params) is False, 'not equal to anything else')
    ctx.observe('vars', sorted(vars(p)))


@harness('C35', bounds='properties with three names, each absent, None, a number or a text of two symbolic characters')
def properties_shown(ctx):
    """The names that are there, and their values, are shown."""
    d, texts = {}, set()
    for k in KEYS:
        what = ctx.pick(k, ('absent', None, 5, 'text'))
        if what == 'text':
            texts.add(k)
        if what != 'absent':
            d[k] = ctx.text(k + 'text', 'ab', 2) if what == 'text' else what
    text = ctx.call(lambda: repr(Properties(**d)))
    want = '<Properties'
    for k in d:
        want = want + ' ' + k + '=' + ("'" + d[k] + "'" if k in texts else '%r' % d[k])
    want = want + '>'
    ctx.check(text == want, 'all names and values, in order')
    ctx.observe('text', text)
