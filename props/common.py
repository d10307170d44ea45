"""Helpers shared by the harnesses.

Nothing here is taken from the code under test: pitch heights, octave counts and
the like are computed by independent code.
"""

from fractions import Fraction as F

from vs import ctx as C

SCALE2 = (0, 2, 4, 5, 7, 9, 11)     # semitones, the specification's own table
LANG = 'nederlands'


def pitch(ctx, name, den=4, kind='fraction', octs=(-4, 4), alter=(-1, 1)):
    """An arbitrary Pitch."""
    from quickly.pitch import Pitch
    return Pitch(ctx.int(name + '.octave', *octs), ctx.int(name + '.note', 0, 6),
                 ctx.real(name + '.alter', alter[0], alter[1], den, kind))


def height(ctx, p):
    """Twice the height of a pitch in whole tones, from middle C (exact)."""
    return p.octave * 12 + ctx.at(SCALE2, p.note) + p.alter * 2


def step(ctx, p):
    return p.octave * 7 + p.note


# ------------------------------------------------------------ symbolic pitch names
class PlainPitch:
    """A pitch by our own reckoning."""
    def __init__(self, octave, note, alter):
        self.octave = octave
        self.note = note
        self.alter = alter


if C.SYMBOLIC:
    from vs import values as V

    class PName(V.Sym):
        """A pitch name: the name of (note, alter), both possibly symbolic.

        Stands for the one name the language has for that note and alteration.
        """
        __slots__ = ('note', 'alter')
        pytype = str

        def __init__(self, note, alter):
            self.note = note
            self.alter = alter

        def _value(self):
            return real_name(V.concrete(self.note), V.concrete(self.alter))

        def __eq__(self, other):
            if isinstance(other, PName):
                return V.and_(self.note == other.note, self.alter == other.alter)
            if isinstance(other, str):
                return self._value() == other
            return False

        def __ne__(self, other):
            return V.not_(self == other)

        def __hash__(self):
            return hash(self._value())

        def __str__(self):
            return self._value()
        __repr__ = __str__

        def __bool__(self):
            return True

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return getattr(self._value(), name)

    class NameTable:
        """name -> (octave, note, alter); the octave of all names is -1."""
        def __getitem__(self, name):
            if isinstance(name, PName):
                return -1, name.note, name.alter
            return real_table()[name]

        def get(self, name, default=None):
            return self[name] if name in self else default

        def __contains__(self, name):
            return isinstance(name, PName) or name in real_table()

        def __iter__(self):
            return iter(real_table())

        def items(self):
            return real_table().items()

    class RevTable:
        """(note, alter) -> {-1: (name,)}."""
        def __getitem__(self, k):
            note, alter = k
            if any(isinstance(x, V.Sym) for x in k):
                ok = V.and_(note >= 0, note <= 6, alter >= -1, alter <= 1)
                if not ok:
                    raise KeyError(k)
            return {-1: (PName(note, alter),)}

        def get(self, k, default=None):
            try:
                return self[k]
            except KeyError:
                return default

        def __contains__(self, k):
            return self.get(k) is not None


def real_table():
    from parce.lang.lilypond_words import pitch_names
    return pitch_names[LANG]


def real_name(note, alter):
    for name, (o, n, a) in real_table().items():
        if n == note and a == alter:
            return name
    raise KeyError((note, alter))


REAL = {}


def merged_octave(node, num):
    """Set the octave marks of a node, also if there are none."""
    from quickly.dom import lily
    for n in node / lily.Octave:
        n.head = num
        return
    if not isinstance(num, int) or num != 0:
        node.add(lily.Octave(num))


def symbolic_language(ctx):
    """Set up the language for note names; return its name.

    Symbolically this is a language with one name for every note and alteration,
    concretely it is nederlands, which has names for all quarter tones.
    """
    if not ctx.symbolic:
        return LANG
    import quickly.pitch as P
    from quickly.dom import lily
    REAL.setdefault('octave', lily.Pitchable.octave)
    real = REAL['octave']
    # with more notes, setting an octave does not fork on whether it is 0; that
    # the octave reads back as it was set is decided by C20, and by the cases with one note
    lily.Pitchable.octave = property(real.fget, merged_octave, real.fdel) if ctx.params.get('n', 2) > 1 else real
    P.pitch_names['vs'] = NameTable()
    P.pitch_names_reversed['vs'] = RevTable()
    return 'vs'


def head(ctx, note, alter):
    """The head value of a Note."""
    return PName(note, alter) if ctx.symbolic else real_name(note, alter)


def a_head(ctx, name, den=4):
    return head(ctx, ctx.int(name + '.note', 0, 6), ctx.real(name + '.alter', -1, 1, den))


def a_note(ctx, name, *children, cls=None, octs=(-2, 2), den=4):
    """A Note (or other Pitchable) with any head and octave."""
    from quickly.dom import lily
    cls = cls or lily.Note
    return cls(a_head(ctx, name, den), lily.Octave(ctx.int(name + '.oct', *octs)), *children)


def read_head(h):
    """(octave, note, alter) of a head value, by the table itself."""
    if isinstance(h, str):
        return real_table()[h]
    return -1, h.note, h.alter


def marks(node):
    """The number of octave marks at the node."""
    from quickly.dom import lily
    n = 0
    for c in list(node):
        if isinstance(c, lily.Octave):
            n = n + c.head
    return n


def read_note(node):
    """The pitch the name and octave marks of a node denote by themselves."""
    o, n, a = read_head(node.head)
    return PlainPitch(o + marks(node), n, a)


def same(ctx, p, q):
    return ctx.And(p.octave == q.octave, p.note == q.note, p.alter == q.alter)


# ------------------------------------------------------------ what music sounds like
def absolute(ctx, prev, cur):
    """The absolute pitch of cur (octave -1 + marks) read relative to prev."""
    d = cur.note - prev.note
    oct = prev.octave + cur.octave + 1 + ctx.ite(d > 3, -1, ctx.ite(d < -3, 1, 0))
    return PlainPitch(oct, cur.note, cur.alter)


def sounding(ctx, node, first_absolute, measure=None):
    """Return a list of (node, pitch) with the sounding pitch of every note in
    the tree, by LilyPond's rules (absolute, \\relative, \\fixed, \\transpose).

    ``first_absolute`` is how \\relative without start pitch reads its first note.
    Every item is (node, pitch, measure of the pitch including \\transpose);
    measure is the height by default. For a pitch whose octave does not matter
    the measure is None.
    """
    measure = measure or height
    from quickly.dom import lily, base
    result = []

    def plain(n):
        return [c for c in list(n) if not isinstance(c, base.Comment)]

    def out(n, p, shift):
        result.append((n, p, measure(ctx, p) + shift))

    def read_abs(n, shift, oct):
        if isinstance(n, lily.Pitchable):
            p = read_note(n)
            p.octave = p.octave + oct
            out(n, p, shift)
        elif not special(n, shift):
            for c in list(n):
                read_abs(c, shift, oct)

    def special(n, shift):
        if isinstance(n, lily.Relative):
            nodes = plain(n)
            if len(nodes) > 1 and isinstance(nodes[0], lily.Pitchable):
                prev = read_note(nodes.pop(0))
            elif first_absolute:
                prev = PlainPitch(-1, 3, 0)
            else:
                prev = PlainPitch(0, 0, 0)
            for c in nodes:
                prev = read_rel(c, prev, shift)
        elif isinstance(n, lily.Fixed):
            ref, *rest = plain(n)
            r = read_note(ref)
            for c in rest:
                read_abs(c, shift, r.octave + 1)
        elif isinstance(n, lily.Transpose):
            a, b, *rest = plain(n)
            a, b = read_note(a), read_note(b)
            for c in rest:
                read_abs(c, shift + measure(ctx, b) - measure(ctx, a), 0)
        elif isinstance(n, lily.Absolute):
            for c in list(n):
                read_abs(c, shift, 0)
        elif isinstance(n, lily.OctaveCheck):
            pass
        elif isinstance(n, (lily.Key, lily.Inversion)):
            for c in list(n):
                if isinstance(c, lily.Pitchable):
                    p = read_note(c)
                    result.append((c, p, None))     # only the pitch class matters
        elif isinstance(n, (lily.Transposition, lily.StringTuning)):
            pass
        else:
            return False
        return True

    def read_rel(n, prev, shift):
        if isinstance(n, lily.Pitchable):
            p = absolute(ctx, prev, read_note(n))
            out(n, p, shift)
            return p
        if isinstance(n, lily.Chord):
            first, last = None, prev
            for b in list(n):
                if isinstance(b, lily.ChordBody):
                    for c in list(b):
                        if isinstance(c, lily.Pitchable):
                            last = absolute(ctx, last, read_note(c))
                            out(c, last, shift)
                            first = first or last
            return first or prev
        if isinstance(n, lily.OctaveCheck):
            for c in list(n):
                if isinstance(c, lily.Pitchable):
                    return read_note(c)
            return prev
        if special(n, shift):
            return prev
        for c in list(n):
            prev = read_rel(c, prev, shift)
        return prev

    read_abs(node, 0, 0)
    return result


def music(ctx, name, kind, den=2):
    """One item of music of the kind, with any pitches."""
    from quickly.dom import lily
    N = lambda s, *a, **k: a_note(ctx, name + s, *a, den=den, **k)
    if kind == 'note':
        return N('')
    if kind == 'note=':
        return N('', lily.OctCheck(0))
    if kind == 'rest':
        return N('', cls=lily.PitchedRest)
    if kind == 'chord':
        return lily.Chord(lily.ChordBody(N('x'), N('y')))
    if kind == 'chord1':
        return lily.Chord(lily.ChordBody(N('x')))
    if kind == 'empty':
        return lily.Chord(lily.ChordBody())
    if kind == 'nested':
        return lily.MusicList(N('x'))
    if kind == 'check':
        return lily.OctaveCheck(N('x', cls=lily.Pitch))
    if kind == 'relative':
        return lily.Relative(N('x', cls=lily.Pitch), lily.MusicList(N('y')))
    if kind == 'relative0':
        return lily.Relative(lily.MusicList(N('y')))
    if kind == 'fixed':
        return lily.Fixed(N('x', cls=lily.Pitch), lily.MusicList(N('y')))
    if kind == 'absolute':
        return lily.Absolute(lily.MusicList(N('x')))
    if kind == 'transpose':
        return lily.Transpose(N('x', cls=lily.Pitch), N('y', cls=lily.Pitch), lily.MusicList(N('z')))
    if kind == 'key':
        return lily.Key(N('x', cls=lily.Pitch), lily.Mode('major'))
    if kind == 'inversion':
        return lily.ChordMode('chordmode', lily.MusicList(lily.Note(a_head(ctx, name + 'x', den), lily.ChordModifiers(
            lily.Inversion(N('y', cls=lily.Pitch))))))
    if kind == 'transposition':
        return lily.Transposition(N('x', cls=lily.Pitch))
    if kind == 'comment':
        return lily.SinglelineComment(' text')
    if kind == 'skip':
        return lily.Space(lily.Duration(1))
    raise KeyError(kind)


def container(ctx, kind, items, den=2):
    """Put the music items in an expression."""
    from quickly.dom import lily
    N = lambda s: a_note(ctx, s, den=den, cls=lily.Pitch)
    ml = lily.MusicList(*items)
    if kind == 'list':
        return ml
    if kind == 'relative':
        return lily.Relative(N('start'), ml)
    if kind == 'relative0':
        return lily.Relative(ml)
    if kind == 'relative%':
        return lily.Relative(lily.SinglelineComment(' text'), N('start'), ml)
    if kind == 'fixed':
        return lily.Fixed(N('start'), ml)
    if kind == 'absolute':
        return lily.Absolute(ml)
    if kind == 'transpose':
        return lily.Transpose(N('from'), N('to'), ml)
    raise KeyError(kind)
