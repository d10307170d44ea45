"""C07: durations and their notation."""
from vs.ctx import harness
from quickly import duration as D
from quickly.dom import lily
from props import common as K

F = K.F
NAMES = {-1: '\\breve', -2: '\\longa', -3: '\\maxima'}


def value(log, dots):
    """The duration, by our own reckoning (concrete)."""
    v = F(1)
    for i in range(abs(log)):
        v = v / 2 if log > 0 else v * 2
    return v * (2 - F(1, 2 ** dots))


def text(log, dots):
    return (NAMES.get(log) or str(2 ** log)) + '.' * dots


class Token:
    def __init__(self, text):
        self.text = text
        self.pos, self.end, self.action = 0, len(text), None

    def __eq__(self, other):
        return self.text == other

    def __ne__(self, other):
        return self.text != other


@harness('C07', bounds='log -3 (maxima) .. 12, 0..8 dots')
def duration_notation(ctx):
    """Every duration is written as base length and dots, and read back."""
    log, dots = ctx.size('log', -3, 12), ctx.size('dots', 0, 8)
    v = D.duration(log, dots)
    ctx.check(v == value(log, dots), 'the value')
    ctx.check(D.log_dotcount(v) == (log, dots), 'log and dots')
    s = D.to_string(v)
    ctx.check(s == text(log, dots), 'the text')
    ctx.check(D.from_string(s) == v, 'read back')
    ctx.check(D.from_string(s.lstrip('\\')) == v, 'read back without backslash')
    ctx.check(D.from_string(s.rstrip('.'), dots) == v, 'read back with the number of dots')
    ctx.check(D.is_writable(v) == (log <= 10), 'is_writable')
    node = lily.Duration(v)
    ctx.check(node.write() == s, 'written by the node')
    ctx.check(lily.Duration.read_head([Token(s.rstrip('.'))] + [Token('.')] * dots) == v, 'read by the node')
    ctx.check(lily.Duration.from_string(s).duration() == (v, 1), 'node from text')
    ctx.observe('s', s)


@harness('C07', cases=[dict(den=64, lo=1, hi=64), dict(den=8, lo=8, hi=127), dict(den=1024, lo=1, hi=64)],
         thorough=[dict(den=64, lo=a, hi=a + 128) for a in range(1, 1024, 128)] + [dict(den=1024, lo=a, hi=a + 255) for a in range(1, 1024, 256)],
         bounds='multiples of 1/1024 up to 1/16, of 1/64 up to 1 and 1/8 up to 16 '
                '(thorough: of 1/64 up to 16, 1/1024 up to 1)')
def duration_truncated(ctx):
    """Any value is truncated to the longest duration that can be written and is not longer."""
    den = ctx.params['den']
    v = ctx.real('value', F(ctx.params['lo'], den), F(ctx.params['hi'], den), den)
    log, dots = D.log_dotcount(v)
    d = D.duration(log, dots)
    ctx.check(d <= v, 'not longer')
    ctx.check(d * 2 > v, 'the base length is the longest')
    ctx.check(D.duration(log, dots + 1) > v, 'the number of dots is the highest')
    ctx.check(dots >= 0, 'no less than zero dots')
    ctx.check(D.is_writable(v) == (d == v), 'writable when nothing is lost')
    ctx.check(D.from_string(D.to_string(v)) == d, 'written truncated')
    ctx.observe('d', [log, dots])


@harness('C07', bounds='numbers 0..260 and some other text')
def duration_invalid(ctx):
    """Reading a text that is no duration is an error."""
    if ctx.flag('number'):
        n = ctx.int('n', 0, 260)
        good = ctx.Or(*[n == 2 ** i for i in range(9)])
        s = ctx.call(str, n)
        want = ctx.Not(good)
    else:
        s = ctx.pick('text', ['', '.', '\\', 'brev', 'brevis', '\\long', 'x', '-4', '4x', '1/4', '4.5'])
        want = True
    try:
        v = D.from_string(s, 0)
        bad = False
    except ValueError:
        bad = True
    ctx.check(bad == want, 'only durations are accepted')
    if not bad:
        ctx.check(v * n == 1, 'the right length')
    ctx.observe('bad', bad)


@harness('C07', cases=[dict(den=d) for d in range(1, 9)],
         bounds='scaling n/d with n 1..16, d 1..8, written as one or two factors, with any duration')
def duration_scaling(ctx):
    """A scaling is written as a fraction and read back, many are multiplied."""
    d = ctx.params['den']
    n = ctx.size('n', 1, 16)
    dur = D.duration(ctx.size('log', -3, 4), ctx.size('dots', 0, 2))
    scale = F(n, d)
    s = lily.DurationScaling(scale)
    t = s.write()
    ctx.check(t == ('' if scale == 1 else '*%d' % n if d == 1 else '*%s' % scale), 'the text')
    if scale != 1:
        ctx.check(lily.DurationScaling.read_head([Token('*'), Token(t[1:])]) == scale, 'read back')
    m = ctx.size('m', 1, 3)
    r = lily.DurationScaling.read_head([Token('*'), Token(str(m)), Token('*'), Token('%d/%d' % (n, d))])
    ctx.check(r == m * scale, 'factors are multiplied')
    node = lily.Duration.from_duration(dur, scale)
    ctx.check(node.duration() == (dur, scale), 'duration and scaling of the node')
    ctx.check(node.write() == D.to_string(dur) + t, 'the text of the duration')
    other = lily.Duration.from_string(node.write())
    ctx.check(other.duration() == (dur, scale), 'read back from the text')
    other = lily.Duration.from_string('%s*%d/%d*%d' % (D.to_string(dur), n, d, m))
    ctx.check(other.duration() == (dur, scale * m), 'read back from more factors')
    ctx.observe('text', node.write())


@harness('C07', bounds='float and Fraction values of log -3..10, 0..4 dots')
def duration_number(ctx):
    """A duration may be given as any number."""
    log, dots = ctx.size('log', -3, 10), ctx.size('dots', 0, 4)
    v = value(log, dots)
    ctx.check(D.to_string(float(v)) == text(log, dots), 'float')
    ctx.check(lily.Duration(float(v)).head == v, 'a node from a float')
    ctx.check(lily.DurationScaling(float(v)).head == v, 'a scaling from a float')
    if v.denominator == 1:
        ctx.check(D.to_string(int(v)) == text(log, dots), 'int')
        ctx.check(lily.Duration(int(v)).head == v, 'a node from an int')
