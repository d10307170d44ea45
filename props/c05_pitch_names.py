"""C05: pitch names are written and read in all languages."""
from vs.ctx import harness
from parce.lang.lilypond_words import pitch_names
from quickly.pitch import (
    Pitch, PitchProcessor, octave_to_string, octave_from_string, determine_language)
from quickly.dom import lily
from props import common as K

LANGS = sorted(pitch_names)
SYNONYMS = [('español', 'espanol'), ('português', 'portugues'), ('català', 'catalan')]
PREFS = ('long', 'accented', 'x', 'double_s', 'classic', 'deprecated')
# which preferences matter
USED = dict(nederlands=['classic'], catalan=['deprecated'], català=['deprecated'], deutsch=['deprecated'],
            english=['long', 'x'], espanol=['x'], español=['x'], français=['accented', 'x'],
            norsk=['double_s', 'classic'], suomi=['deprecated'])


def style(language, names, prefs):
    """The names that have the preferred style, as far as there are such names."""
    def keep(names, want, test):
        subset = [n for n in names if bool(test(n)) == want]
        return subset or names
    if language in ('nederlands', 'norsk'):
        names = keep(names, prefs['classic'], lambda n: n[:2] not in ('ee', 'ae'))
    if language == 'norsk':
        names = keep(names, prefs['double_s'], lambda n: 'ss' in n)
    if language == 'english':
        names = keep(names, prefs['long'], lambda n: '-' in n)
        if not prefs['long']:
            names = keep(names, prefs['x'], lambda n: n.endswith('x'))
    if language in ('espanol', 'español', 'français'):
        if language == 'français':
            names = keep(names, prefs['accented'], lambda n: 'é' in n)
        names = keep(names, prefs['x'], lambda n: n.endswith('x'))
    deprecated = dict(catalan=lambda n: n.endswith('s'), català=lambda n: n.endswith('s'),
                      deutsch=lambda n: n in ('eeh', 'ases', 'aseh', 'aeh'),
                      suomi=lambda n: n in ('ases', 'bb', 'heses')).get(language)
    if deprecated:
        names = keep(names, prefs['deprecated'], deprecated)
    return names


def processor(ctx, language):
    p = PitchProcessor(language)
    prefs = dict.fromkeys(PREFS, False)
    prefs['classic'] = True
    for name in USED.get(language, ()):
        prefs[name] = ctx.flag(name)
    for name in PREFS:
        if name in USED.get(language, ()) or name == 'classic':
            setattr(p, 'prefer_' + name, prefs[name])
    return p, prefs


def named(language):
    """All (note, alter) with a name, sorted."""
    d = {}
    for name, (o, n, a) in pitch_names[language].items():
        d.setdefault((n, a), []).append(name)
    return d


@harness('C05', cases=[dict(language=l) for l in LANGS],
         bounds='every language and combination of its preferences, every pitch name it has; octave -3..4')
def pitch_name_written(ctx):
    """Writing a pitch and reading the text back gives the pitch; the name has the preferred style."""
    lang = ctx.params['language']
    p, prefs = processor(ctx, lang)
    names = named(lang)
    keys = sorted(names)
    note, alter = ctx.pick('name', keys)
    octave = ctx.int('octave', -3, 4)
    name, marks = p.name_octave(Pitch(octave, note, alter))
    o, n, a = pitch_names[lang][name]
    ctx.check((n, a) == (note, alter), 'the name is that of the note')
    ctx.check(o + marks == octave, 'the octave is right')
    if lang != 'bagpipe':
        ctx.check(name in style(lang, names[note, alter], prefs), 'the name has the preferred style')
    q = p.pitch(name)
    ctx.check(ctx.And(q.octave + marks == octave, q.note == note, q.alter == alter), 'read back')
    ctx.check(p.to_string(Pitch(octave, note, alter)) == name + octave_to_string(marks), 'as a string')
    node = p.pitchable(Pitch(octave, note, alter))
    q = p.read_node(node)
    ctx.check(K.same(ctx, q, Pitch(octave, note, alter)), 'as a node')
    ctx.observe('name', name)


@harness('C05', cases=[dict(language=l, every=9, prefs=False) for l in LANGS],
         thorough=[dict(language=l, every=1, prefs=True) for l in LANGS],
         bounds='every language (thorough: and combination of its preferences), a note of any name and octave -1..1 '
                'that gets any pitch with a name')
def pitch_node_written(ctx):
    """Writing a pitch to a note in any notation; the notation is kept when the note is the same."""
    lang = ctx.params['language']
    p = processor(ctx, lang)[0] if ctx.params['prefs'] else PitchProcessor(lang)
    names = named(lang)
    old = ctx.pick('old', sorted(pitch_names[lang]))
    marks = ctx.int('marks', -1, 1)
    octave = ctx.int('octave', -1, 1)
    note, alter = ctx.pick('name', sorted(names)[::ctx.params['every']] + [pitch_names[lang][old][1:]])
    node = lily.Note(old, octave=marks)
    before = p.read_node(node)
    o, n, a = pitch_names[lang][old]
    ctx.check(K.same(ctx, before, Pitch(o + marks, n, a)), 'reading a note')
    p.write_node(node, Pitch(octave, note, alter))
    q = p.read_node(node)
    ctx.check(K.same(ctx, q, Pitch(octave, note, alter)), 'written and read')
    if (note, alter) == (n, a):
        ctx.check(node.head == old, 'the name is kept')
    node = lily.Note(old, octave=marks)
    with p.process(node) as q:
        q.octave = q.octave + 1
    ctx.check(node.head == old, 'the name is kept when only the octave changes')
    ctx.check(K.marks(node) == marks + 1, 'the octave changed')
    with p.process(node, False) as q:
        q.octave = q.octave + 1
        q.note = 0
    ctx.check(node.head == old and K.marks(node) == marks + 1,
              'not written when not asked')
    ctx.observe('note', node.head)


@harness('C05', bounds='octave -12..12')
def octave_notation(ctx):
    """Octaves are written with commas and apostrophes, and read back."""
    n = ctx.int('octave', -12, 12)
    s = octave_to_string(n)
    ctx.check(s == (int(n) * "'" if n > 0 else int(-n) * ','), 'as written')
    ctx.check(octave_from_string(s) == n, 'read back')
    octave = lily.Octave(n)
    ctx.check(octave.write() == s, 'the octave node')
    ctx.check(lily.Octave(lily.Octave.read_head([Token(s)]) if s else 0).head == n, 'read back as a node')
    ctx.observe('octave', s)


class Token:
    def __init__(self, text):
        self.text = text
        self.action = None
        self.pos = 0
        self.end = len(text)


@harness('C05', cases=[dict(a=a, b=b) for a, b in SYNONYMS],
         bounds='every pitch of the languages with two names, with all preferences')
def language_synonym(ctx):
    """A language that has two names writes the same pitch names under both."""
    a, b = PitchProcessor(ctx.params['a']), PitchProcessor(ctx.params['b'])
    for name in PREFS:
        v = ctx.flag(name) if name in USED.get(ctx.params['b'], ()) else False
        setattr(a, 'prefer_' + name, v)
        setattr(b, 'prefer_' + name, v)
    note, alter = ctx.pick('name', sorted(named(ctx.params['a'])))
    p = Pitch(ctx.int('octave', -2, 2), note, alter)
    (x, m), (y, n) = a.name_octave(p), b.name_octave(p)
    ctx.check(x == y, 'the same name')
    ctx.check(m == n, 'the same octave')
    ctx.observe('name', x)


@harness('C05', bounds='any pitch with alter in eighths -2..2 that is not named in nederlands')
def unknown_pitch(ctx):
    """A pitch without a name is an error and is not written with some other name."""
    p = Pitch(ctx.int('octave', -1, 1), ctx.int('note', 0, 6), ctx.real('alter', -2, 2, 8))
    try:
        name, octave = PitchProcessor().name_octave(p)
    except KeyError:
        name = None
    known = ctx.And(p.alter >= -1, p.alter <= 1, ctx.Or(*[p.alter == K.F(i, 4) for i in range(-4, 5)]))
    ctx.check(known == (name is not None), 'a name for every known pitch')
    if name:
        o, n, a = pitch_names['nederlands'][name]
        ctx.check(ctx.And(n == p.note, a == p.alter, o + octave == p.octave), 'the right one')
    ctx.observe('name', name)
