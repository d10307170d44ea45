"""Pieces of LilyPond text together with the elements they stand for, for C32 and C33.

Every function adds a text to the document and returns the elements that the documentation of quickly.dom says it is made of.
"""
from fractions import Fraction

from quickly.dom import htm, lily, scm, tex

NAMES = 'cdefgab'


def duration(d, options=('', '16.')):
    """A duration, or none."""
    s = d.pick(options[-1:] if d.plain else options)
    if not s:
        return []
    main, *scale = s.split('*')
    v = Fraction(1, int(main.rstrip('.')))
    dots = main.count('.')
    dur = lily.Duration(v * (2 - Fraction(1, 2 ** dots)))
    if scale:
        dur.append(lily.DurationScaling(Fraction(scale[0])))
    return [dur]


def octave(d, options=('', ',,')):
    s = d.pick(options[:1] if d.plain else options)
    return [lily.Octave(s.count("'") - s.count(','))] if s else []


def pitch(d, cls=lily.Pitch):
    name = d.word(NAMES)
    if d.pick(('', 'is')):
        name = name + 'is'
    return cls(name, *octave(d, ('', "''")))


# ---------------------------------------------------------------- in music
def note(d):
    name = d.word(NAMES)
    return lily.Note(name, *octave(d), *duration(d))


def note_alteration(d):
    name = d.word(NAMES) + d.word('ei') + 's'
    d('s')
    return lily.Note(name, *octave(d, ('', ',')), *duration(d, ('', '2')))


def note_accidental(d):
    name = d.word(NAMES)
    o = octave(d)
    a = d.word('!?')
    acc = lily.Accidental({'!': 'forced', '?': 'cautionary'}[d.ctx.concrete(a)] if not d.ctx.symbolic else 'forced' if a == '!' else 'cautionary')
    return lily.Note(name, *o, acc, *duration(d))


def note_check(d):
    name = d.word(NAMES)
    o = octave(d)
    d('=')
    c = d.pick(('', "'", ',,'))
    return lily.Note(name, *o, lily.OctCheck(c.count("'") - c.count(',')), *duration(d))


def scaled(d):
    name = d.word(NAMES)
    return lily.Note(name, *duration(d, ('4*2/3', '2.*3', '1*1/2', '8..*2', '4*5')))


def rest(d):
    c = d.pick(('r', 'R', 's'))
    return {'r': lily.Rest, 'R': lily.MultiMeasureRest, 's': lily.Space}[c](*duration(d, ('', '4', '1*3')))


def pitched_rest(d):
    name = d.word(NAMES)
    o = octave(d)
    dur = duration(d, ('', '4.'))
    d(r'\rest')
    return lily.PitchedRest(name, *o, *dur, lily.RestModifier())


def skip(d):
    d.solid(r'\skip ')
    return lily.Skip(*duration(d, ('4', '2.', '1*3/4')))


def q(d):
    d('q')
    return lily.Q(*duration(d))


def unpitched(d):
    return lily.Unpitched(*duration(d, ('4', '8.', '1*3')))


def chord(d):
    d('<')
    a = pitch(d, lily.Note)
    d(' ')
    b = pitch(d, lily.Note)
    d('>')
    return lily.Chord(lily.ChordBody(a, b), *duration(d))


def empty_chord(d):
    d('<>')
    return lily.Chord(lily.ChordBody(), *duration(d, ('',)))


def chord_events(d):
    d('<')
    a = lily.Note(d.word(NAMES))
    d('-')
    f = d.word('12345')
    a.append(lily.Articulations(lily.Direction(0, lily.Fingering(f))))
    d('>')
    dur = duration(d)
    d('(')
    return lily.Chord(lily.ChordBody(a), *dur, lily.Articulations(lily.Slur('start')))


def direction(d):
    return lily.Direction({'-': 0, '_': -1, '^': 1}[d.pick('-_^')])


def script(d):
    n = lily.Note(d.word(NAMES), *duration(d))
    dd = direction(d)
    dd.append(lily.Articulation(d.word('.>!^_')))
    n.append(lily.Articulations(dd))
    return n


def scripts(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '8')))
    a = lily.Articulations()
    for i in range(2):
        c = d.pick((r'\f', r'\<', '(', ')', '[', ']', '~', r'\(', r'\)', '-.', r'\trill', r'\!', r'\startTrillSpan', r'\glissando'))
        e = {'(': lily.Slur, ')': lily.Slur, '[': lily.Beam, ']': lily.Beam, r'\(': lily.PhrasingSlur, r'\)': lily.PhrasingSlur}.get(c)
        if e:
            e = e('start' if c[-1] in '([' else 'stop')
        elif c == '~':
            e = lily.Tie()
        elif c == '-.':
            e = lily.Direction(0, lily.Articulation('.'))
        elif c == r'\trill':
            e = lily.Articulation(r'\trill')
        elif c == r'\startTrillSpan':
            e = lily.TrillSpanner('start')
        elif c == r'\glissando':
            e = lily.Glissando()
        else:
            e = lily.Dynamic(c[1:])
        a.append(e)
    n.append(a)
    return n


def texts(d):
    n = lily.Note(d.word(NAMES), *duration(d))
    dd = direction(d)
    d('"')
    s = d.word('abc%{', 2)
    d('"')
    dd.append(lily.String(s))
    n.append(lily.Articulations(dd))
    return n


def text_markup(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '2')))
    dd = direction(d)
    d(r'\markup ')
    dd.append(lily.Markup('markup', markup(d)))
    n.append(lily.Articulations(dd))
    return n


def markup(d):
    """One markup."""
    k = d.pick(('x', r'\bold y', '{ z', r'\fontsize #', r'\column {', '"'))
    if k == 'x':
        return lily.MarkupWord('x')
    elif k == r'\bold y':
        return lily.MarkupCommand('bold', lily.MarkupWord('y'))
    elif k == '{ z':
        d(' ')
        w = lily.MarkupWord(d.word('xyz', 2))
        d(' }')
        return lily.MarkupList(lily.MarkupWord('z'), w)
    elif k == '"':
        s = lily.String(d.word('xyz', 2))
        d('"')
        return s
    elif k == r'\column {':
        d(' ')
        w = lily.MarkupWord(d.word('xyz'))
        d(r' \italic ')
        v = lily.MarkupWord(d.word('xyz'))
        d(' }')
        return lily.MarkupCommand('column', lily.MarkupList(w, lily.MarkupCommand('italic', v)))
    else:
        n = d.pick(('1', '-2'))
        d(' ')
        return lily.MarkupCommand('fontsize', lily.Scheme('#', scm.Number(int(n))), lily.MarkupWord(d.word('xyz')))


def direction_ref(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '2')))
    dd = direction(d)
    d('\\')
    dd.append(lily.IdentifierRef(d.word('xyz', 3)))
    n.append(lily.Articulations(dd))
    return n


def tweak(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '4')))
    d(r'\tweak ')
    name = d.word('xyz', 3)
    d(' #')
    v = d.word('xyz', 2)
    d(' -')
    c = d.word('.>')
    n.append(lily.Articulations(lily.Tweak(lily.Symbol(name), lily.Scheme('#', scm.Identifier(v)), lily.Direction(0, lily.Articulation(c)))))
    return n


def spanner_id(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '4')))
    d(r'\=')
    k = d.number('123')
    d('(')
    n.append(lily.Articulations(lily.SpannerId(lily.Int(k), lily.Slur('start'))))
    return n


def tremolo(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '4')))
    d(':')
    k = d.pick(('16', '32', '8'))
    n.append(lily.Articulations(lily.Tremolo(lily.Duration(Fraction(1, int(k))))))
    return n


def sequence(d, between=' '):
    """Some music between braces."""
    s = d.pick(('{', '<<'))
    d(' ')
    a = note(d)
    d(' ')
    b = lily.Note(d.word(NAMES))
    d(' ')
    d('}' if s == '{' else '>>')
    return (lily.MusicList if s == '{' else lily.SimultaneousMusicList)(a, b)


def block(d, *items):
    d('{ ')
    n = lily.MusicList(lily.Note(d.word(NAMES)))
    d(' }')
    return n


def voices(d):
    d('<< ')
    a = block(d)
    d(r' \\ ')
    b = block(d)
    d(' >>')
    return lily.SimultaneousMusicList(a, lily.VoiceSeparator(), b)


def relative(d):
    c = d.pick((r'\relative ', r'\fixed ', r'\transposition '))
    cls = {'r': lily.Relative, 'f': lily.Fixed, 't': lily.Transposition}[c[1]]
    p = pitch(d)
    if cls is lily.Transposition:
        return cls(p)
    d(' ')
    return cls(p, sequence(d))


def relative_plain(d):
    c = d.pick((r'\relative ', r'\absolute ', r'\unfoldRepeats ', r'\grace ', r'\acciaccatura ', r'\appoggiatura ', r'\notemode '))
    cls = {r'\relative ': lily.Relative, r'\absolute ': lily.Absolute, r'\unfoldRepeats ': lily.UnfoldRepeats, r'\grace ': lily.Grace, r'\notemode ': lily.NoteMode,
           r'\acciaccatura ': lily.Acciaccatura, r'\appoggiatura ': lily.Appoggiatura}[c]
    return cls(block(d))


def grace_note(d):
    d(r'\grace ')
    return lily.Grace(note(d))


def transpose(d):
    d(r'\transpose ')
    a = pitch(d)
    d(' ')
    b = pitch(d)
    d(' ')
    return lily.Transpose(a, b, block(d))


def key(d):
    d(r'\key ')
    p = pitch(d)
    d(' \\')
    return lily.Key(p, lily.Mode(d.pick(('major', 'minor', 'dorian'))))


def clef(d):
    d(r'\clef ')
    if d.pick(('', '"')):
        s = lily.String(d.word('bast_8', 3))
        d('"')
        return lily.Clef(s)
    return lily.Clef(lily.Symbol(d.pick(('bass', 'treble'))))


def bar(d):
    d(r'\bar "')
    s = lily.String(d.word('|:.', 2))
    d('"')
    return lily.Bar(s)


def time(d):
    d(r'\time ')
    n = d.number('2346')
    d('/')
    m = d.number('248')
    return lily.Time(lily.Fraction((n, m)))


def tempo(d):
    k = d.pick((r'\tempo 4=', r'\tempo 8. = ', '\\tempo "'))
    if '"' in k:
        s = lily.String(d.word('abc', 2))
        d('" 2=')
        n = d.number('123456', 2)
        return lily.Tempo(s, lily.Duration(Fraction(1, 2)), lily.EqualSign(), lily.Int(n))
    n = d.number('123456', 3)
    v = Fraction(3, 16) if '8.' in k else Fraction(1, 4)
    return lily.Tempo(lily.Duration(v), lily.EqualSign(), lily.Int(n))


def partial(d):
    d(r'\partial ')
    return lily.Partial(*duration(d, ('4', '8.', '4*2')))


def tuplet(d):
    c = d.pick((r'\tuplet 3/2 ', r'\times 2/3 ', r'\tuplet 5/4 4 ', r'\scaleDurations 2/3 '))
    cls = {'u': lily.Tuplet, 'i': lily.Times, 'c': lily.ScaleDurations}[c[2]]
    a = [lily.Fraction((int(c.split()[1][0]), int(c.split()[1][2])))]
    if c.endswith('4 '):
        a.append(lily.Duration(Fraction(1, 4)))
    return cls(*a, block(d))


def repeat(d):
    d(r'\repeat ')
    s = d.pick(('volta', 'unfold', 'tremolo'))
    d(' ')
    n = d.number('2345')
    d(' ')
    args = [lily.Symbol(s), lily.Int(n), block(d)]
    if s != 'tremolo' and d.pick(('', r' \alternative { ')):
        a = block(d)
        d(' ')
        b = block(d)
        d(' }')
        args.append(lily.Alternative(lily.MusicList(a, b)))
    return lily.Repeat(*args)


def new(d):
    c = d.pick((r'\new ', r'\context '))
    args = [lily.Symbol(d.word('STXY', 3))]
    if d.pick(('', ' = "')):
        args += [lily.EqualSign(), lily.String(d.word('xyz', 2))]
        d('"')
    if d.pick(('', r' \with { ')):
        d(r'\consists ')
        s = lily.Symbol(d.word('XYAB', 3))
        d(' }')
        args.append(lily.With(lily.Consists(s)))
    d(' ')
    args.append(block(d))
    return (lily.New if c[1] == 'n' else lily.Context)(*args)


def change(d):
    d(r'\change ')
    a = lily.Symbol(d.word('STX', 3))
    d(' = "')
    b = lily.String(d.word('xyz'))
    d('"')
    return lily.Change(a, lily.EqualSign(), b)


def path(d, n):
    """A path of names, like a.b."""
    r = []
    for i in range(n):
        if i:
            d('.')
            r.append(lily.Separator('.'))
        r.append(lily.Symbol(d.word('ABXY', 2)))
    return lily.List(*r) if n > 1 else r[0]


def set_property(d):
    d(r'\set ')
    p = path(d, 2)
    d(' = ')
    return lily.Set(p, lily.EqualSign(), value(d))


def unset(d):
    d(r'\unset ')
    return lily.Unset(path(d, 2))


def override(d):
    c = d.pick((r'\override ', r'\once \override ', r'\temporary \override '))
    p = path(d, 3)
    d(' = ')
    n = lily.Override(p, lily.EqualSign(), value(d))
    return n if c == r'\override ' else lily.Once(n) if 'once' in c else lily.Temporary(n)


def revert(d):
    c = d.pick((r'\revert ', r'\undo \revert '))
    n = lily.Revert(path(d, 2))
    return n if c == r'\revert ' else lily.Undo(n)


def hide(d):
    c = d.pick((r'\omit ', r'\hide '))
    return (lily.Omit if 'o' in c else lily.Hide)(path(d, 2))


def value(d):
    """A value."""
    k = d.pick(('##', "#'", '#"', '"', '#', '#(', '$'))
    if k == '##':
        return lily.Scheme('#', scm.Bool(d.pick(('t', 'f')) == 't'))
    elif k == "#'":
        return lily.Scheme('#', scm.Quote("'", scm.Identifier(d.word('xyz', 2))))
    elif k == '#"':
        s = d.word('xy;', 2)
        d('"')
        return lily.Scheme('#', scm.String(s))
    elif k == '"':
        s = d.word('xy;', 2)
        d('"')
        return lily.String(s)
    elif k == '#(':
        a = scm.Identifier(d.word('xyz', 2))
        d.solid(' ')
        b = scm.Number(int(d.pick(('1', '42'))))
        d(')')
        return lily.Scheme('#', scm.List(a, b))
    return lily.Scheme(k, scm.Identifier(d.word('xyz', 2)))


def tag(d):
    c = d.pick((r'\tag ', r'\keepWithTag ', r'\removeWithTag '))
    cls = {'t': lily.Tag, 'k': lily.KeepWithTag, 'r': lily.RemoveWithTag}[c[1]]
    d("#'")
    s = lily.Scheme('#', scm.Quote("'", scm.Identifier(d.word('xyz', 2))))
    d(' ')
    b = block(d)
    return cls(s, b)


def tag_names(d):
    """A command with one name, or names."""
    c = d.pick((r'\tag ', r'\keepWithTag ', r'\removeWithTag ', r'\pushToTag ', r'\appendToTag '))
    cls = {'t': lily.Tag, 'k': lily.KeepWithTag, 'r': lily.RemoveWithTag, 'p': lily.PushToTag, 'a': lily.AppendToTag}[c[1]]
    n = d.pick(('', "#'("))
    a = d.word('xyz', 2)
    if n:
        d.solid(' ')
        b = d.word('xyz')
        d(')')
        arg = lily.Scheme('#', scm.Quote("'", scm.List(scm.Identifier(a), scm.Identifier(b))))
    else:
        arg = lily.Symbol(a)
    d(' ')
    return cls(arg, block(d))


def tag_group(d):
    d(r"\tagGroup #'(")
    a = d.word('xyz', 2)
    d.solid(' ')
    b = d.word('xyz')
    d(')')
    return lily.TagGroup(lily.Scheme('#', scm.Quote("'", scm.List(scm.Identifier(a), scm.Identifier(b)))))


def tag_event(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '4')))
    k = d.pick(('', '-', '^'))
    d(r"\tag #'")
    t = lily.Tag(lily.Scheme('#', scm.Quote("'", scm.Identifier(d.word('xyz', 2)))))
    d(' ')
    c = d.pick(('(', r'\trill', r'\f', '['))
    t.append(lily.Slur('start') if c == '(' else lily.Beam('start') if c == '[' else lily.Dynamic('f') if c == r'\f' else lily.Articulation(c))
    n.append(lily.Articulations(lily.Direction({'-': 0, '^': 1}[k], t) if k else t))
    return n


def shift(d):
    c = d.pick((r'\shiftDurations #1 #', r'\shiftDurations 1 '))
    k = int(d.pick(('0', '3')))
    args = [lily.Scheme('#', scm.Number(1)), lily.Scheme('#', scm.Number(k))] if '#' in c else [lily.Int(1), lily.Int(k)]
    d(' ')
    return lily.ShiftDurations(*args, block(d))


def volta(d):
    c = d.pick((r'\volta ', r'\volta 1,', r"\volta #'(1", r'\unfolded '))
    if c == r'\unfolded ':
        return lily.Unfolded(block(d))
    if '#' in c:
        d.solid(' ')
    k = int(d.pick(('1', '2', '3')))
    if '#' in c:
        d(')')
        arg = lily.Scheme('#', scm.Quote("'", scm.List(scm.Number(1), scm.Number(k))))
    else:
        arg = lily.List(lily.Int(1), lily.Separator(','), lily.Int(k)) if ',' in c else lily.Int(k)
    d(' ')
    return lily.Volta(arg, block(d))


def shape(d):
    c = d.pick((r'\shape ', r'\vshape '))
    d.solid("#'((0 . ")
    k = int(d.pick(('1', '20')))
    d.solid(')) ')
    a = lily.Scheme('#', scm.Quote("'", scm.List(scm.List(scm.Number(0), scm.Dot(), scm.Number(k)))))
    d('S')
    return (lily.VShape if 'v' in c else lily.Shape)(a, lily.Symbol('S' + d.word('xyz', 2)))


def shape_event(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '4')))
    d.solid(r"-\shape #'((0 . ")
    k = int(d.pick(('1', '20')))
    d.solid(')) (')
    a = lily.Scheme('#', scm.Quote("'", scm.List(scm.List(scm.Number(0), scm.Dot(), scm.Number(k)))))
    n.append(lily.Articulations(lily.Direction(0, lily.Shape(a, lily.Slur('start')))))
    return n


def after(d):
    d(r'\after')
    dur = duration(d, ('4', '8.'))
    c = d.pick((r'\f', r'\>', r'\trill'))
    d(' ')
    return [lily.After(*dur, lily.Articulations(lily.Articulation(c) if 'trill' in c else lily.Dynamic(c[1:]))), lily.Note(d.word(NAMES))]


def no_beam(d):
    n = lily.Note(d.word(NAMES), *duration(d))
    d(r'\noBeam')
    n.append(lily.Articulations(lily.Modifier('noBeam')))
    return n


def markup_score(d):
    n = lily.Note(d.word(NAMES), *duration(d, ('', '2')))
    dd = direction(d)
    d(r'\markup \score { ')
    b = block(d)
    d(' }')
    dd.append(lily.Markup('markup', lily.MarkupScore(b)))
    n.append(lily.Articulations(dd))
    return n


def neutral(d):
    """Directions, styles and settings."""
    c = d.pick((r'\stemNeutral', r'\tieDown', r'\phrasingSlurUp', r'\tieDotted', r'\slurSolid', r'\phrasingSlurDotted', r'\textLengthOn', r'\autoBeamOn',
                r'\easyHeadsOn', r'\tupletNeutral', r'\voiceFour', r'\allowPageTurn'))
    g, s, t = lily.GrobDirection, lily.GrobStyle, lily.Toggle
    return {r'\stemNeutral': lambda: g(('Stem', 0)), r'\tieDown': lambda: g(('Tie', -1)), r'\phrasingSlurUp': lambda: g(('PhrasingSlur', 1)), r'\tieDotted': lambda: s(('Tie', 'dotted')),
            r'\slurSolid': lambda: s(('Slur', 'solid')), r'\phrasingSlurDotted': lambda: s(('PhrasingSlur', 'dotted')), r'\textLengthOn': lambda: t(('textLength', True)),
            r'\autoBeamOn': lambda: t(('autoBeam', True)), r'\easyHeadsOn': lambda: t(('easyHeads', True)), r'\tupletNeutral': lambda: g(('Tuplet', 0)),
            r'\voiceFour': lambda: lily.VoiceN(4), r'\allowPageTurn': lambda: lily.PageTurn('allow')}[c]()


def mark(d):
    c = d.pick((r'\mark \default', r'\mark "', r'\label #' + "'"))
    if 'default' in c:
        return lily.Mark(lily.Default())
    s = d.word('xyz', 2)
    if 'label' in c:
        return lily.Label(lily.Scheme('#', scm.Quote("'", scm.Identifier(s))))
    d('"')
    return lily.Mark(lily.String(s))


def words(d):
    """Commands without arguments."""
    c = d.pick((r'\break', r'\noBreak', r'\pageBreak', r'\voiceOne', r'\oneVoice', r'\stemUp', r'\slurDashed', r'\autoBeamOff', r'\breathe', '|', r'\noPageTurn', r'\inStaffSegno'))
    return {r'\break': lambda: lily.Break(True), r'\noBreak': lambda: lily.Break(False), r'\pageBreak': lambda: lily.PageBreak(True), r'\voiceOne': lambda: lily.VoiceN(1),
            r'\oneVoice': lambda: lily.MusicFunction('oneVoice'), r'\stemUp': lambda: lily.GrobDirection(('Stem', 1)), r'\slurDashed': lambda: lily.GrobStyle(('Slur', 'dashed')),
            r'\autoBeamOff': lambda: lily.Toggle(('autoBeam', False)), r'\breathe': lily.Breathe, '|': lily.PipeSymbol, r'\noPageTurn': lambda: lily.PageTurn('no'),
            r'\inStaffSegno': lily.InStaffSegno}[c]()


def ref(d):
    d('\\')
    n = lily.IdentifierRef(d.word('xyz', 3))
    if d.pick(('', '.')):
        n.extend([lily.Separator('.'), lily.Int(d.number('123'))])
    return n


def scheme(d):
    c = d.pick(('#', '$'))
    d('(')
    a = scm.Identifier(d.word('xyz', 2))
    d.solid(" '")
    b = scm.Identifier(d.word('xyz', 2))
    d.solid(' `(,')
    e = scm.Identifier(d.word('xyz'))
    d.solid(' . "')
    f = scm.String(d.word('xyz;'))
    d.solid('") #{ ')
    g = lily.Note(d.word(NAMES))
    d.solid(' #})')
    return lily.Scheme(c, scm.List(a, scm.Quote("'", b), scm.Quote('`', scm.List(scm.Quote(',', e), scm.Dot(), f)), scm.LilyPond(g)))


def after_grace(d):
    d(r'\afterGrace ')
    a = lily.Note(d.word(NAMES), *duration(d, ('', '2')))
    d(' ')
    return lily.AfterGrace(a, block(d))


def ottava(d):
    d(r'\ottava ')
    c = d.pick(('#1', '1', '#-1'))
    return lily.Ottava(lily.Int(1) if c == '1' else lily.Scheme('#', scm.Number(int(c[1:]))))


def quote(d):
    c = d.pick((r'\addQuote "', r'\quoteDuring "'))
    s = lily.String(d.word('xyz', 2))
    d('" ')
    return (lily.AddQuote if 'add' in c else lily.QuoteDuring)(s, block(d))


def octave_check(d):
    d(r'\octaveCheck ')
    return lily.OctaveCheck(pitch(d))


def part_combine(d):
    d(r'\partcombine ')
    a = block(d)
    d(' ')
    return lily.PartCombine(a, block(d))


def comment_block(d):
    d('%{')
    s = d.word(' xc"%}', 2)
    d.ctx.assume(d.ctx.Not(s == '%}'))
    if d.ctx.symbolic:
        d.ctx.assume(s[1] != '%')
    d('%}')
    return lily.MultilineComment(s)


def comment_line(d):
    d('%')
    s = d.word('xc"\\', 2)
    d('\n')
    return lily.SinglelineComment(s)


def sequential(d):
    c = d.pick((r'\sequential ', r'\simultaneous '))
    return (lily.Sequential if 'q' in c else lily.Simultaneous)(block(d))


MUSIC = {f.__name__: f for f in (
    note, note_alteration, note_accidental, note_check, scaled, rest, pitched_rest, skip, q, unpitched, chord, empty_chord, chord_events, script, scripts, texts, text_markup,
    direction_ref, tweak, spanner_id, tremolo, sequence, voices, relative, relative_plain, grace_note, transpose, key, clef, bar, time, tempo, partial, tuplet, repeat, new,
    change, set_property, unset, override, revert, hide, tag, mark, words, ref, scheme, after_grace, ottava, quote, octave_check, part_combine, comment_block, comment_line,
    sequential, tag_names, tag_group, tag_event, shift, volta, shape, shape_event, after, no_beam, markup_score, neutral)}


# ---------------------------------------------------------------- at the outside
def assignment(d, v, *args):
    """name = value"""
    c = d.ctx.pick('kind', ('', '.', '"'))
    if c == '"':
        d(c)
        names = [lily.String(d.word('xyz', 2))]
        d('"')
    else:
        names = [lily.Symbol(d.word('xyz', 3))]
        if c:
            d(c)
            names += [lily.Separator('.'), lily.Symbol(d.word('xyz', 2))]
    d(' = ')
    return lily.Assignment(lily.Identifier(*names), lily.EqualSign(), v(d, *args))


def assign_tuning(d):
    def v(d):
        d(r'\stringTuning <')
        a = pitch(d, lily.Note)
        d(' ')
        b = pitch(d, lily.Note)
        d('>')
        return lily.StringTuning(lily.Chord(lily.ChordBody(a, b)))
    return assignment(d, v)


def assign_music(d):
    return assignment(d, sequence)


def assign_value(d):
    return assignment(d, value)


def assign_number(d):
    def v(d):
        return lily.Int(d.number('5679', 2))
    return assignment(d, v)


def assign_duration(d):
    return assignment(d, lambda d: lily.Unpitched(*duration(d, ('4.', '8..', '1.*3/4'))))


def assign_markup(d):
    def v(d):
        d(r'\markup ')
        return lily.Markup('markup', markup(d))
    return assignment(d, v)


def assign_ref(d):
    def v(d):
        d('\\')
        return lily.IdentifierRef(d.word('xyz', 3))
    return assignment(d, v)


def assign_mode(d):
    d.simple = True
    return assignment(d, d.ctx.pick('mode', [lyrics, chords, figures, drums]))


def assign_with(d):
    def v(d):
        d.solid(r'\with { \remove ')
        n = lily.With(lily.Remove(lily.Symbol(d.word('XYAB', 3))))
        d(' }')
        return n
    return assignment(d, v)


def field(d, name, v):
    d.solid(name + ' = ')       # the lexer does not read a number here after a comment
    return lily.Assignment(lily.Identifier(lily.Symbol(name)), lily.EqualSign(), v(d))


def header(d):
    d(r'\header { ')
    n = lily.Header()
    n.append(field(d, 'title', value))
    d(' ')
    def v(d):
        d(r'\markup ')
        return lily.Markup('markup', markup(d))
    if not d.plain and d.pick(('', '% x\n')):
        n.append(lily.SinglelineComment(' x'))
    n.append(field(d, 'composer', v))
    d(' }')
    return n


def paper(d):
    c = d.pick((r'\paper { ', r'\layout { '))
    n = (lily.Paper if 'p' in c else lily.Layout)()

    def v(d):
        a = lily.Int(d.number('123', 2))
        d('\\')
        u = d.pick(('mm', 'cm', 'in', 'pt'))
        a.append(lily.Unit(u))
        return a
    n.append(field(d, 'indent', v))
    d(' ')
    n.append(field(d, 'line-width', value))
    d(' ')
    n.append(field(d, 'foo', lambda d: lily.Float(float(d.pick(('1.5', '20.25'))))))
    d(' }')
    return n


def layout(d):
    d('\\layout { \\context { \\')
    n = lily.LayoutContext()
    n.append(lily.MusicFunction(d.pick(('Staff', 'Voice'))))
    d(' ')
    c = d.pick((r'\remove ', r'\consists "', r'\accepts ', r'\denies ', r'\name ', r'\alias "', r'\defaultchild "'))
    cls = {'rem': lily.Remove, 'con': lily.Consists, 'acc': lily.Accepts, 'den': lily.Denies, 'nam': lily.Name, 'ali': lily.Alias, 'def': lily.DefaultChild}[c[1:4]]
    s = d.word('XYAB', 3)
    if '"' in c:
        d('"')
        s = lily.String(s)
    else:
        s = lily.Symbol(s)
    n.append(cls(s))
    d(' ')
    n.append(override_plain(d))
    d(' } }')
    return lily.Layout(n)


def override_plain(d):
    d(r'\override ')
    p = path(d, 2)
    d(' = ')
    return lily.Override(p, lily.EqualSign(), value(d))


def score(d):
    d(r'\score { ')
    a = block(d)
    d(r' \header { ')
    h = lily.Header(field(d, 'piece', value))
    d(r' } \layout { } \midi { \tempo 4=')
    t = lily.Tempo(lily.Duration(Fraction(1, 4)), lily.EqualSign(), lily.Int(d.number('123', 2)))
    d(' } }')
    return lily.Score(a, h, lily.Layout(), lily.Midi(t))


def book(d):
    d(r'\book { ')
    r = []
    if d.pick(('', r'\paper { } ')):
        r.append(lily.Paper())
    d(r'\bookpart { \header { } ')
    a = new(d)
    d(' ')
    m = block(d)
    d(' } }')
    return lily.Book(*r, lily.BookPart(lily.Header(), a, m))


def version(d):
    c = d.pick(('\\version "', '\\include "', '\\language "'))
    s = lily.String(d.word('abc.', 3))
    d('"')
    return {'v': lily.Version, 'i': lily.Include, 'l': lily.Language}[c[1]](s)


def outside_markup(d):
    c = d.pick((r'\markup ', r'\markuplist { '))
    if 'list' in c:
        a = markup(d)
        d(' ')
        b = lily.MarkupWord(d.word('xyz', 2))
        d(' }')
        return lily.Markup('markuplist', lily.MarkupList(a, b))
    return lily.Markup('markup', markup(d))


# ---------------------------------------------------------------- other modes
def lyrics(d):
    c = d.pick((r'\lyricmode ', r'\addlyrics ', '\\lyricsto', r'\lyrics '))
    args = []
    if c[-1] == 'o':
        d.solid(' "')
        args.append(lily.String(d.word('xyz', 2)))
        d('" ')
    d('{ ')
    n = lily.MusicList()
    n.append(lily.LyricText(d.word('xyz', 2), *duration(d, ('', '4'))))
    d(' ')
    k = d.pick(('--', '__', '_', 'bar~', '"', r'\markup ', r'\skip '))
    if k == 'bar~':
        n.append(lily.LyricText('bar~' + d.word('xyz', 2)))
    elif k == '"':
        n.append(lily.LyricItem(lily.String(d.word('xyz', 2))))
        d('"')
        n[-1].extend(duration(d))
    elif k == r'\markup ':
        n.append(lily.LyricItem(lily.Markup('markup', markup(d))))
    elif k == r'\skip ':
        n.append(lily.Skip(*duration(d, ('4', '2.'))))
    else:
        n.append({'--': lily.LyricHyphen, '__': lily.LyricExtender, '_': lily.LyricSkip}[k]())
    d(' ')
    n.append(lily.LyricText(d.word('xyz', 2)))
    d(' }')
    return lily.LyricMode(c[1:].strip(), *args, n)


def chords(d):
    c = d.pick((r'\chordmode { ', r'\chords { '))
    d.plain = d.plain or 'rich' not in d.ctx.params
    n = lily.Note(d.word(NAMES), *octave(d, ('', "'")), *duration(d))
    m = lily.ChordModifiers()
    if d.pick(('', ':')):
        a = lily.AddSteps()
        q = d.pick(('', 'maj', 'm', 'dim', 'sus') if 'rich' in d.ctx.params else ('maj', ''))
        if q:
            a.append(lily.Qualifier(q))
        a.append(lily.Step(d.number('4579')))
        s = d.pick(('', '+', '-'))
        if s:
            a[-1].append(lily.Alteration(s))
        if d.pick(('', '.')):
            a.append(lily.Separator('.'))
            a.append(lily.Step(int(d.pick(('9', '11', '13')))))
        m.append(a)
        if d.pick(('', '^')):
            m.append(lily.RemoveSteps(lily.Step(d.number('357'))))
    i = d.pick(('', '/', '/+'))
    if i:
        m.append((lily.Inversion if i == '/' else lily.AddInversion)(lily.Pitch(d.word(NAMES))))
    if len(m):
        n.append(m)
    d(' ')
    b = lily.Rest(*duration(d, ('', '4'))) if d.pick(('r', 'c')) == 'r' else lily.Note('c')
    d(' }')
    return lily.ChordMode(c.strip(' {')[1:], lily.MusicList(n, b))


def figures(d):
    c = d.pick((r'\figuremode { ', r'\figures { '))
    d('<')
    k = d.pick(('', '[', '_ '))
    step = lily.FigureStep(d.number('34567'))
    a = d.pick(('', '+', '--', '!', '-', '++'))
    if a:
        step.append(lily.FigureAccidental({'+': 0.5, '--': -1, '!': 0, '-': -0.5, '++': 1}[a]))
    s = d.pick(('', r'\+', '/', r'\!', r'\\'))
    if s:
        step.append(lily.FigureAlteration({r'\+': 'augmented', '/': 'diminished', r'\!': 'end-of-line', r'\\': 'raised'}[s]))
    if k == '[':
        d(']')
        body = lily.FigureBody(lily.FigureBracket(step))
    elif k:
        body = lily.FigureBody(lily.FigureSkip(), step)
    else:
        body = lily.FigureBody(step)
    d(' ')
    body.append(lily.FigureStep(d.number('234')))
    d('>')
    f = lily.Figure(body, *duration(d))
    d(' }')
    return lily.FigureMode(c.strip(' {')[1:], lily.MusicList(f))


def drums(d):
    c = d.pick((r'\drummode { ', r'\drums { '))
    a = lily.Drum(d.pick(('bd', 'sn', 'hihat')), *duration(d))
    if d.pick(('', '(')):
        a.append(lily.Articulations(lily.Slur('start')))
    d(' ')
    b = lily.Drum('hh')
    d.pick(('hh',))
    b.extend(duration(d, ('', '4.')))
    d(' ')
    r = rest(d)
    d(' }')
    return lily.DrumMode(c.strip(' {')[1:], lily.MusicList(a, b, r))


MODES = {f.__name__: f for f in (lyrics, chords, figures, drums)}
OUTSIDE = {f.__name__: f for f in (
    assign_music, assign_tuning, assign_value, assign_number, assign_duration, assign_markup, assign_ref, assign_mode, assign_with, header, paper, layout, score, book, version,
    outside_markup, sequence, new, relative, scheme, comment_block, comment_line)}


# ---------------------------------------------------------------- Scheme
def scheme_datum(d, kind):
    """One Scheme expression."""
    c = d.ctx
    if kind == 'name':
        return scm.Identifier(d.word('abx', 2) + d.pick(('', '-y', '?', '!', '->z')))
    elif kind == 'number':
        return scm.Number(int(d.pick(('12', '-5', '0', '345'))))       # parce makes the value of a number
    elif kind == 'float':
        return scm.Number(float(d.pick(('1.5', '-0.25'))))
    elif kind == 'hex':
        p = d.pick(('#x', '#b', '#o'))
        n = d.pick({'#x': ('1f', '-a'), '#b': ('101', '-1'), '#o': ('17', '7')}[p])
        return {'#x': scm.Hex, '#b': scm.Bin, '#o': scm.Oct}[p](int(n, {'#x': 16, '#b': 2, '#o': 8}[p]))
    elif kind == 'bool':
        return scm.Bool(d.pick(('#t', '#f')) == '#t')
    elif kind == 'char':
        d('#\\')
        return scm.Char(d.pick(('a', 'space', 'newline', ' ', '(', '\\', '"')))
    elif kind == 'string':
        d('"')
        s = d.word("ab ;(')#", 2)
        d('"')
        return scm.String(s)
    elif kind == 'quote':
        q = d.pick(("'", '`', ',', ',@'))
        return scm.Quote(q, scheme_datum(d, d.ctx.pick('quoted', ('name', 'list'))))
    elif kind == 'quotes':
        d("'")
        q = d.pick(("'", ','))
        return scm.Quote("'", scm.Quote(q, scheme_datum(d, 'name')))
    elif kind == 'list':
        d('(')
        a = scm.Identifier(d.word('abx'))
        dot = d.pick((' ', ' . '))
        b = scm.Identifier(d.word('abx'))
        d(')')
        return scm.List(a, b) if dot == ' ' else scm.List(a, scm.Dot(), b)
    elif kind == 'empty':
        return scm.List() if d.pick(('()', '( )')) else None
    elif kind == 'vector':
        d('#(')
        a = scheme_datum(d, 'bool')
        d(' ')
        b = scm.String(d.word('abx')) if d.pick(('"', '')) else scm.Identifier(d.word('abx'))
        if isinstance(b, scm.String):
            d('"')
        d(')')
        return scm.Vector(a, b)
    elif kind == 'deep':
        d('((')
        a = scm.Identifier(d.word('abx'))
        d(') (')
        b = scheme_datum(d, 'quote')
        d('))')
        return scm.List(scm.List(a), scm.List(b))
    elif kind == 'music':
        d('#{ ')
        a = note(d)
        d(' #}')
        return scm.LilyPond(a)
    elif kind == 'keyword':
        return scm.Identifier(d.pick(('define', 'lambda', 'if', 'let*')))


SCHEME = ('name', 'number', 'float', 'hex', 'bool', 'char', 'string', 'quote', 'quotes', 'list', 'empty', 'vector', 'deep', 'music', 'keyword')


# ---------------------------------------------------------------- LaTeX
def tex_text(d, space=True):
    s = d.word('abc', 2)
    if space:
        d(' ')
        s = s + ' '
    return tex.Text(s)


def tex_piece(d, kind):
    if kind == 'command':
        d('\\')
        n = tex.Command(d.word('xyz', 3))
        if d.pick(('', '[')):
            n.append(tex.Option(tex_text(d, False)))
            d(']')
        if d.pick(('', '{')):
            n.append(tex.Brace(tex_text(d, False)))
            d('}')
        else:
            d('|')
            return [n, tex.Text('|')]
        return [n]
    elif kind == 'brace':
        d('{')
        if d.pick(('', '$')):
            m = tex.MathInlineDollar(tex_text(d, False))
            d('$')
            n = tex.Brace(m)
        else:
            n = tex.Brace(tex_text(d))
        d('}')
        return [n]
    elif kind == 'math':
        c = d.pick(('$', '$$', r'\(', r'\['))
        cls = {'$': tex.MathInlineDollar, '$$': tex.MathDisplayDollar, r'\(': tex.MathInlineParen, r'\[': tex.MathDisplayBracket}[c]
        n = cls(tex.Text(d.word('abc', 2)))
        d({'$': '$', '$$': '$$', r'\(': r'\)', r'\[': r'\]'}[c])
        return [n]
    elif kind == 'comment':
        d('%')
        n = tex.Comment(d.word('ab %', 2))
        t = tex.Text(d.pick(('\n', '\n\n', '\n  ')))
        return [n, t]
    elif kind == 'environment':
        d(r'\begin')
        n = tex.Command('begin')
        if d.pick(('', '[')):
            n.append(tex.Option(tex_text(d, False)))
            d(']')
        d('{')
        name = d.pick(('foo', 'quote', 'equation', 'align*'))
        n.append(tex.EnvironmentName(name))
        d('}')
        t = tex_text(d)
        e = [t]
        if name == 'quote' and d.pick(('', '{')):
            e.append(tex.Brace(tex_text(d, False)))
            d('}')
        elif name == 'align*' and d.pick(('', '$')):
            e.append(tex.MathInlineDollar(tex_text(d, False)))
            d('$')
        w = d.pick(('', '\n'))
        if w:
            if type(e[-1]) is tex.Text:
                e[-1].head = e[-1].head + w
            else:
                e.append(tex.Text(w))
        d(r'\end{' + name + '}')
        return [tex.Environment(n, *e, tex.Command('end', tex.EnvironmentName(name)))]
    elif kind == 'lilypond':
        d(r'\begin{lilypond}')
        n = tex.Command('begin', tex.EnvironmentName('lilypond'))
        if d.pick(('', '[')):
            n.append(tex.Option(tex_text(d, False)))
            d(']')
        d(' ')
        m = sequence(d)
        d(r' \end{lilypond}')
        return [tex.Environment(n, lily.Document(m), tex.Command('end', tex.EnvironmentName('lilypond')))]
    elif kind == 'short':
        d(r'\lilypond')
        n = tex.Command('lilypond')
        if d.pick(('', '[')):
            n.append(tex.Option(tex_text(d, False)))
            d(']')
        d('{ ')
        n.append(tex.Brace(lily.Document(sequence(d))))
        d(' }')
        return [n]


TEX = 'command', 'brace', 'math', 'environment', 'lilypond', 'short', 'comment'


# ---------------------------------------------------------------- HTML
def htm_attribute(d):
    n = htm.Attribute(htm.AttrName(d.word('abc', 2)))
    k = d.pick(('', '="', "='"))
    if k:
        n.append(htm.EqualSign())
        v = (htm.DqString if k == '="' else htm.SqString)(htm.Text(d.word('xyz', 2)))
        if 'rich' in d.ctx.params and d.ctx.flag('entity%d' % d.words):
            v.append(htm.EntityRef('amp'))
            d('&amp;')
        n.append(v)
        d(k[1])
    return n


def htm_piece(d, kind):
    if kind == 'comment':
        d('<!--')
        w = d.word('ab&', 2)
        if d.pick(('', ' <p> ')):
            w = w + ' <p> '
        d('-->')
        return [htm.Comment(w)]
    elif kind == 'cdata':
        d('<![CDATA[')
        w = d.word('ab&', 2)
        if d.pick(('', ' <p> ')):
            w = w + ' <p> '
        d(']]>')
        return [htm.CData(w)]
    elif kind == 'instruction':
        d('<?xml ')
        w = d.word('ab<', 2)
        n = htm.ProcessingInstruction(htm.Text('xml ' + w))
        for i in range(2):
            c = d.pick(('', '="', "='", '&'))
            if c == '&':
                n.append(htm.EntityRef(d.word('abc', 2)))
                d(';')
            elif c:
                if type(n[-1]) is htm.Text:
                    n[-1].head = n[-1].head + '='
                else:
                    n.append(htm.Text('='))
                n.append((htm.DqString if c == '="' else htm.SqString)(htm.Text(d.word('xy', 2))))
                d(c[1])
        d('?>')
        return [n]
    elif kind == 'entity':
        d('&')
        w = d.word('abc', 2)
        d(';')
        return [htm.EntityRef(w)]
    d('<')
    if kind in ('tag', 'nested'):
        name = d.pick(('p', 'h1'))
        tag = htm.OpenTag(htm.TagName(name))
        if d.pick(('', ' ')):
            tag.append(htm_attribute(d))
        d('>')
        e = htm.Element(tag, htm.Text(d.word('abc', 2)))
        if kind == 'nested':
            e.extend(htm_piece(d, 'single'))
            simple, d.simple = d.simple, 'rich' not in d.ctx.params
            e.extend(htm_piece(d, 'tag'))
            d.simple = simple
        d('</' + name + '>')
        e.append(htm.CloseTag(htm.TagName(name)))
        return [e]
    elif kind == 'single':
        d('br')
        tag = htm.SingleTag(htm.TagName('br'))
        if d.pick(('', ' ')):
            tag.append(htm_attribute(d))
        d('/>')
        return [htm.Element(tag)]
    elif kind == 'lilypond':
        d('lilypond')
        tag = htm.OpenTag(htm.TagName('lilypond'))
        for i in range(d.ctx.int('options', 0, 2)):
            d(' ')
            tag.append(htm_option(d))
            d.simple = True
        d('>')
        d.simple = False
        m = sequence(d)
        d('</lilypond>')
        return [htm.Element(tag, lily.Document(m), htm.CloseTag(htm.TagName('lilypond')))]
    elif kind == 'short':
        d('lilypond')
        tag = htm.SingleTag(htm.TagName('lilypond'))
        if d.ctx.flag('option'):
            d(' ')
            tag.append(htm_option(d))
        tag.append(htm.Colon())
        d(': ')
        tag.append(lily.Document(sequence(d)))
        d(' />')
        return [htm.Element(tag)]
    elif kind == 'file':
        name = d.pick(('lilypondfile', 'musicxmlfile'))
        tag = htm.OpenTag(htm.TagName(name))
        if d.ctx.flag('option'):
            d(' ')
            tag.append(htm_option(d))
        d('>')
        t = htm.Text(d.word('abc./', 3))
        d('</' + name + '>')
        return [htm.Element(tag, t, htm.CloseTag(htm.TagName(name)))]


def htm_option(d):
    k = d.pick(('verbatim', 'quote', 'staffsize=', 'line-width=', 'foo'))
    n = htm.Attribute(htm.AttrName(k.strip('=')))
    if k[-1] == '=':
        n.append(htm.EqualSign())
        n.append(htm.Number(d.number('123', 2)))
        if k[0] == 'l':
            n.append(htm.Unit(d.pick(('mm', 'cm'))))
    return n


HTML = 'tag', 'nested', 'single', 'lilypond', 'short', 'file', 'comment', 'cdata', 'instruction', 'entity'
