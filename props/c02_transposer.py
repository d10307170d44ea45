"""C02: transposers can be added and subtracted."""
from vs.ctx import harness
from quickly.transpose import Transposer
from props import common as K


def transposer(ctx, name, den, kind='fraction'):
    return Transposer(K.pitch(ctx, name + 'from', den, kind, octs=(-2, 2)),
                      K.pitch(ctx, name + 'to', den, kind, octs=(-2, 2)))


def moved(t, p):
    q = p.copy()
    t.transpose(q)
    return q


def same_sound(ctx, p, q, label):
    ctx.check(K.height(ctx, p) == K.height(ctx, q), label)


BOUNDS = 'pitches: any note, alter in -1..1 (halves, or quarters), octave -2..2'


@harness('C02', cases=[dict(den=2), dict(den=2, kind='float')], thorough=[dict(den=2), dict(den=4), dict(den=4, kind='float')],
         bounds=BOUNDS)
def transposer_sum(ctx):
    """The sum of two transposers moves a pitch as far as one after the other."""
    den, kind = ctx.params['den'], ctx.params.get('kind', 'fraction')
    s, t = transposer(ctx, 's', den, kind), transposer(ctx, 't', den, kind)
    p = K.pitch(ctx, 'p', den, kind, octs=(-2, 2))
    one = moved(s + t, p)
    d1 = K.height(ctx, moved(s, p)) - K.height(ctx, p)
    d2 = K.height(ctx, moved(t, p)) - K.height(ctx, p)
    ctx.check(K.height(ctx, one) - K.height(ctx, p) == d1 + d2, 'the sum moves by both intervals')
    ctx.observe('one', [one.octave, one.note, one.alter])


@harness('C02', cases=[dict(den=2)], thorough=[dict(den=2), dict(den=4), dict(den=4, kind='float')], bounds=BOUNDS)
def transposer_difference(ctx):
    """The difference of two transposers moves a pitch by the difference."""
    den, kind = ctx.params['den'], ctx.params.get('kind', 'fraction')
    s, t = transposer(ctx, 's', den, kind), transposer(ctx, 't', den, kind)
    p = K.pitch(ctx, 'p', den, kind, octs=(-2, 2))
    one = moved(s - t, p)
    d1 = K.height(ctx, moved(s, p)) - K.height(ctx, p)
    d2 = K.height(ctx, moved(t, p)) - K.height(ctx, p)
    ctx.check(K.height(ctx, one) - K.height(ctx, p) == d1 - d2, 'the difference moves by both intervals')
    ctx.observe('one', [one.octave, one.note, one.alter])


@harness('C02', cases=[dict(den=2, kind='float')], thorough=[dict(den=4), dict(den=4, kind='float')], bounds=BOUNDS)
def transposer_inverse(ctx):
    """Subtracting what was added restores the interval: s + t - t acts as s; also the octaves and steps."""
    den, kind = ctx.params['den'], ctx.params.get('kind', 'fraction')
    s, t = transposer(ctx, 's', den, kind), transposer(ctx, 't', den, kind)
    p = K.pitch(ctx, 'p', den, kind, octs=(-2, 2))
    a, b = moved(s + t - t, p), moved(s, p)
    ctx.check(K.same(ctx, a, b), 's + t - t gives the same pitch as s')
    z = moved(t - t, p)
    ctx.check(K.same(ctx, z, p), 't - t changes nothing')
    ctx.observe('a', [a.octave, a.note, a.alter])


@harness('C02', cases=[dict(den=2)], thorough=[dict(den=4)],
         bounds='any three pitches with alter in -1..1, octave -2..2')
def transposer_chain(ctx):
    """From a to b plus from b to c is from a to c; its notes are the same in name, too."""
    den = ctx.params['den']
    a, b, c, p = (K.pitch(ctx, n, den, octs=(-2, 2)) for n in 'abcp')
    q = moved(Transposer(a, b) + Transposer(b, c), p)
    r = moved(Transposer(a, c), p)
    ctx.check(K.same(ctx, q, r), 'a-b plus b-c is a-c')
    q = moved(Transposer(a, c) - Transposer(b, c), p)
    r = moved(Transposer(a, b), p)
    ctx.check(K.same(ctx, q, r), 'a-c minus b-c is a-b')
    ctx.observe('q', [q.octave, q.note, q.alter])


@harness('C02', cases=[dict(den=4)], bounds='any two pitches with alter in quarters -1..1, octave -4..4')
def transposer_itself(ctx):
    """A transposer brings its from-pitch to its to-pitch, and the reverse one brings it back."""
    a, b = K.pitch(ctx, 'a'), K.pitch(ctx, 'b')
    q = moved(Transposer(a, b), a)
    ctx.check(K.same(ctx, q, b), 'from becomes to')
    ctx.check(K.same(ctx, moved(Transposer(b, a), q), a), 'and back')
    ctx.check(K.same(ctx, moved(Transposer(a, a), b), b), 'a unison changes nothing')
    ctx.observe('q', [q.octave, q.note, q.alter])
