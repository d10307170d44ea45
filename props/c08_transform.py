"""C08: shifting and scaling durations."""
from vs.ctx import harness
from quickly import duration as D
from quickly.duration import Transform
from quickly.dom import lily
from props import common as K

F = K.F


def pow2(n):
    return F(2) ** n


@harness('C08', cases=[dict(log=l) for l in range(-1, 6)],
         bounds='log -1..5, 0..3 dots, shifted by log -2..4 and dots -3..3')
def shifted_duration(ctx):
    """Shifting changes the base length by powers of two and the dots, never below zero."""
    log, dots = ctx.params['log'], ctx.int('dots', 0, 3)
    dl, dd = ctx.int('dlog', -2, 4), ctx.int('ddots', -3, 3)
    v = D.duration(log, dots)
    s = D.shift_duration(v, dl, dd)
    left = ctx.ite(dots + dd < 0, 0, dots + dd)
    a, b = D.log_dotcount(s)
    ctx.check(a == log + dl, 'the base length')
    ctx.check(b == left, 'the dots')
    ctx.check(ctx.Implies(ctx.And(dd == 0, dl == 1), s * 2 == v), 'one log shorter is half the length')
    ctx.check(ctx.Implies(dd == 0, D.shift_duration(s, -dl, 0) == v), 'shifted back')
    ctx.check(ctx.Implies(dots + dd >= 0, D.shift_duration(s, -dl, -dd) == v), 'dots shifted back')
    ctx.observe('s', s)


def transform(ctx, name):
    return Transform(ctx.int(name + '.log', -1, 2), ctx.int(name + '.dots', -1, 2),
                     ctx.real(name + '.scale', F(1, 4), 2, 4))


@harness('C08', cases=[dict(log=l) for l in (-1, 0, 1, 2, 3, 4)],
         bounds='transforms with log -1..2, dots -1..2, scale 1/4..2; durations of log -1..4, 0..2 dots, any scaling 1/8..4')
def transform_sum(ctx):
    """The sum of transforms does the same as one after the other, and in any order."""
    s, t = transform(ctx, 's'), transform(ctx, 't')
    dots = ctx.int('dots', 0, 2)
    v = D.duration(ctx.params['log'], dots)
    scaling = ctx.real('scaling', F(1, 8), 4, 8)
    ctx.assume(dots + s.dotcount >= 0)      # dots are not lost in between
    a = (s + t).transform(v, scaling)
    b = t.transform(*s.transform(v, scaling))
    ctx.check(a[0] == b[0], 'the duration')
    ctx.check(a[1] == b[1], 'the scaling')
    ctx.check((s + t).length(v, scaling) == a[0] * a[1], 'the length')
    c = (t + s).transform(v, scaling)
    ctx.check(ctx.And(a[0] == c[0], a[1] == c[1]), 'the order does not matter')
    ctx.observe('a', a)


@harness('C08', cases=[dict(log=l) for l in (-1, 0, 1, 2, 3, 4)],
         bounds='transforms with log -1..2, dots -1..2, scale 1/4..2; durations of log -1..4, 0..2 dots')
def transform_nothing(ctx):
    """A transform that changes nothing is false; others are true and change something."""
    t = transform(ctx, 't')
    log, dots = ctx.params['log'], ctx.size('dots', 0, 2)
    v = D.duration(log, dots)
    d, s = t.transform(v)
    changed = ctx.Or(t.log != 0, t.dotcount != 0, t.scale != 1)
    ctx.check(bool(t) == changed, 'truth value')
    ctx.check(ctx.Implies(ctx.Not(changed), ctx.And(d == v, s == 1)), 'nothing is changed')
    ctx.check(s == t.scale, 'the scaling')
    ctx.check(t.length(v) == d * s, 'the length')
    u = t + Transform()
    ctx.check(ctx.And(u.log == t.log, u.dotcount == t.dotcount, u.scale == t.scale), 'neutral element')
    ctx.check(ctx.Implies(t.dotcount == 0, d * pow2(int(t.log)) == v), 'shifted by powers of two')
    ctx.observe('d', [d, s])


@harness('C08', bounds='\\tuplet or \\times fraction n/m 1..7, \\shiftDurations with log -1..2 and dots 0..1, '
                       '\\scaleDurations, nested; a note of log 0..3, 0..1 dots')
def transform_music(ctx):
    r"""The length of a note in \tuplet, \times, \scaleDurations and \shiftDurations."""
    log, dots = ctx.size('log', 0, 3), ctx.size('dots', 0, 1)
    v = D.duration(log, dots)
    note = lily.Note('c', lily.Duration(v))
    from quickly.time import Time
    music = lily.MusicList(note)
    want = v
    for i in range(2):
        k = ctx.pick('kind%d' % i, ['tuplet', 'times', 'scale', 'shift'] if i == 0 else ['tuplet', 'scale', None])
        n, m = ctx.pick('fraction%d' % i, [(3, 2), (2, 3), (5, 4), (1, 3)]) if k not in ('shift', None) else (1, 1)
        if k == 'tuplet':
            music = lily.Tuplet(lily.Fraction((n, m)), music)
            want = want * F(m, n)
        elif k == 'times':
            music = lily.Times(lily.Fraction((n, m)), music)
            want = want * F(n, m)
        elif k == 'scale':
            music = lily.ScaleDurations(lily.Fraction((n, m)), music)
            want = want * F(n, m)
        elif k == 'shift':
            l, d = ctx.size('shift.log', -1, 2), ctx.size('shift.dots', 0, 1)
            music = lily.ShiftDurations(lily.Int(l), lily.Int(d), music)
            want = D.duration(log + l, dots + d)
    doc = lily.Document(music)
    t = Time()
    ctx.check(t.length(music) == want, 'the length of the music')
    ctx.check(t.length(note) == want, 'the length of the note in it')
    r = t.duration(note, note)
    ctx.check(r.node is music and r.time == want, 'the duration of the note')
    ctx.observe('length', want)
