"""C01: transposing one pitch."""
from vs.ctx import harness
from quickly.pitch import Pitch, MAJOR_SCALE
from quickly.transpose import Transposer
from props import common as K


@harness('C01', cases=[dict(den=4), dict(den=4, kind='float'), dict(den=8)],
         bounds='from/to/source: any note 0..6, alter a multiple of 1/4 (or 1/12) in -1..1, octave -4..4')
def transpose_pitch(ctx):
    """Transposing any pitch by any interval moves it exactly by that interval."""
    den, kind = ctx.params['den'], ctx.params.get('kind', 'fraction')
    a, b, p = (K.pitch(ctx, n, den=den, kind=kind) for n in 'abp')
    t = Transposer(a, b)
    q = p.copy()
    t.transpose(q)
    ctx.check(K.height(ctx, q) - K.height(ctx, p) == K.height(ctx, b) - K.height(ctx, a), 'interval')
    ctx.check(ctx.And(q.note >= 0, q.note <= 6), 'note in range')
    ctx.check(ctx.And(q.alter >= -1, q.alter <= 1), 'alter in range')
    ctx.observe('q', [q.octave, q.note, q.alter])
