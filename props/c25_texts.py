"""C25: texts, numbers and words in their notation."""
import html
import re
from fractions import Fraction

import parce
import parce.action as a
from quickly.dom import base, element, htm, lily, scm, tex
from quickly.lang.latex import Latex
from quickly.lang.lilypond import LilyPond
from quickly.lang.scheme import Scheme
from quickly.lang.html import Html
from vs.ctx import harness


class Token:
    """A token as the lexer makes it."""
    def __init__(self, text, action=None):
        self.text = text
        self.action = action
        self.pos = 0
        self.end = len(text)

    def __eq__(self, other):
        return self.text == other

    def __ne__(self, other):
        return self.text != other

    __hash__ = None


def lexed(ctx, lexicon, text, tokens):
    """The tokens, when replayed those of the real lexer."""
    if ctx.symbolic:
        return tokens
    real = list(parce.root(lexicon, text).tokens())
    ctx.check([t.text for t in real] == [t.text for t in tokens], 'the tokens are those of the lexer')
    return real


def pieces(ctx, text, name='split'):
    """The text in one or two tokens."""
    return [Token(text)] if len(text) else []


@harness('C25', cases=[dict(type=t, n=n) for t in ('lily', 'scm') for n in (0, 1, 2, 3)], thorough=[dict(type=t, n=n) for t in ('lily', 'scm') for n in (0, 1, 2, 3, 4)],
         bounds='every text of up to three (thorough: four) characters, of quotes, backslashes, newlines and six others')
def quoted(ctx):
    """Strings are written with quotes and backslashes escaped and read back, also without the closing quote."""
    cls = {'lily': lily.String, 'scm': scm.String}[ctx.params['type']]
    head = ctx.text('head', 'a"\\\n n{%é', ctx.params['n'])
    node = cls(head)
    text = node.write_head()
    want, tokens, run = '"', [Token('"', a.String)], ''
    for i in range(ctx.params['n']):
        c = head[i]
        if ctx.concrete(ctx.Or(c == '"', c == '\\')) if not ctx.symbolic else bool(ctx.Or(c == '"', c == '\\')):
            if len(run):
                tokens.append(Token(run, a.String))
            tokens.append(Token('\\' + c, a.String.Escape))
            run = ''
            want = want + '\\' + c
        else:
            run = run + c
            want = want + c
    if len(run):
        tokens.append(Token(run, a.String))
    ctx.check(text == want + '"', 'the notation')
    closed = ctx.flag('closed')
    if closed:
        tokens.append(Token('"', a.String))
    tokens = lexed(ctx, LilyPond.root if cls is lily.String else Scheme.root, text if closed else want, tokens)
    ctx.check(cls.read_head(tokens) == head, 'it reads back')
    ctx.check(cls.from_origin(tokens).equals(node), 'the same element')


COMMENTS = {
    'lily block': (lily.MultilineComment, '%{', '%}', LilyPond.root),
    'scm block': (scm.MultilineComment, '#!', '!#', Scheme.root),
    'lily line': (lily.SinglelineComment, '%', '', LilyPond.root),
    'scm line': (scm.SinglelineComment, ';', '', Scheme.root),
    'tex line': (tex.Comment, '%', '', Latex.root),
}


@harness('C25', cases=[dict(type=t, n=n) for t in COMMENTS for n in (0, 1, 2, 3)], bounds='every text of up to three characters of seven')
def comments(ctx):
    """Comments are written with their delimiters and read back, also if the end is missing."""
    cls, start, end, lexicon = COMMENTS[ctx.params['type']]
    head = ctx.text('head', 'a "\\;!x', ctx.params['n'])
    if start == '%' and lexicon is LilyPond.root and len(head):
        ctx.assume(head[0] != '{')
    node = cls(head)
    text = node.write_head()
    ctx.check(text == start + head + end, 'the notation')
    tokens = [Token(start)] + pieces(ctx, head)
    if end and ctx.flag('closed'):
        tokens.append(Token(end))
    elif end:
        text = text[:-2]
    tokens = lexed(ctx, lexicon, text, tokens)
    ctx.check(cls.read_head(tokens) == head, 'it reads back')
    ctx.check(cls.from_origin(tokens).equals(node), 'the same element')
    if ctx.params['n'] > 1 and not end:
        three = ctx.And(head[0] == start, head[1] == start)
        ctx.check((node.indent_override() == 0) == three, 'no indent for three comment characters')


def subclasses(base_class):
    r = []
    for m in (base, lily, scm, htm, tex):
        r += [c for n, c in sorted(vars(m).items()) if isinstance(c, type) and issubclass(c, base_class) and c.__module__ == m.__name__]
    return r


@harness('C25', cases=[dict(n=n) for n in (1, 2, 3)], bounds='every command type, every name of up to three characters of four')
def commands(ctx):
    """Commands are written with a backslash and read back; a name that has one is an error."""
    cls = ctx.pick('type', subclasses(base.BackslashCommand))
    head = ctx.text('head', 'ab\\-', ctx.params['n'])
    starts = head[0] == '\\'
    try:
        node = cls(head)
    except TypeError:
        ctx.check(starts, 'an error only for a backslash')
        return
    ctx.check(ctx.Not(starts), 'a backslash is an error')
    text = node.write_head()
    ctx.check(text == '\\' + head, 'the notation')
    ctx.check(cls.read_head([Token(text)]) == head, 'it reads back')
    ctx.check(cls.read_head([Token('\\'), Token(head)]) == head, 'from more tokens')
    other = cls.from_origin([Token(text)])
    ctx.check(ctx.And(type(other) is cls, other.equals(node)), 'the same element')


@harness('C25', cases=[dict(kind=k) for k in ('int', 'fraction', 'html')], bounds='integers of up to three digits, fractions of up to two digits over up to two')
def numbers(ctx):
    """Numbers are written in digits and read back."""
    kind = ctx.params['kind']
    if kind == 'fraction':
        p, q = ctx.int('p', -99, 99), ctx.int('q', 1, 99)
        node = lily.Fraction((p, q))
        text = node.write_head()
        ctx.check(ctx.And(value(ctx, text[:-1 - size(q)]) == p, value(ctx, text[-size(q):]) == q, text[-1 - size(q)] == '/'), 'the notation')
        got = lily.Fraction.read_head([Token(text)])
        ctx.check(len(got) == 2 and ctx.And(got[0] == p, got[1] == q), 'it reads back')
        ctx.check(node.fraction() * q == p, 'the value')
        for bad in (1, (1, 2, 3), (1,), [1, 2], '1/2', (1, '2')):
            ctx.check(refused(lily.Fraction, bad), 'other values are an error')
    else:
        n = ctx.int('n', -999, 999)
        cls = lily.Int if kind == 'int' else htm.Number
        node = cls(n)
        text = node.write_head()
        ctx.check(value(ctx, text) == n, 'the notation')
        got = cls.read_head([Token(text)])
        ctx.check(ctx.And(ctx.pytype(got) is int, got == n), 'it reads back')
        if cls is lily.Int:
            for bad in (1.5, '1', None, True):
                ctx.check(refused(lily.Int, bad), 'other values are an error')


def size(n):
    k = 1
    while n >= 10 ** k:
        k += 1
    return k


def value(ctx, text, base=10):
    """The value of digits."""
    digits = '0123456789abcdef'[:base]
    negative = text[0] == '-'
    if not isinstance(negative, bool):
        negative = bool(negative)
    if negative:
        text = text[1:]
    r = 0
    for i in range(len(text)):
        r = r * base + sum(ctx.ite(text[i] == c, j, 0) for j, c in enumerate(digits))
    return -r if negative else r


def refused(cls, head):
    try:
        cls(head)
    except TypeError:
        return True
    return False


@harness('C25', cases=[dict(cls=c, kind=k) for c in ('Number', 'Hex', 'Oct', 'Bin') for k in ('int', 'fraction')],
         bounds='numbers from -300 to 300, fractions of up to 20 over up to 8; numbers with a point in eighths from -3 to 3')
def scheme_numbers(ctx):
    """Scheme numbers are written in digits of their base, and read back by the lexer."""
    cls = getattr(scm, ctx.params['cls'])
    base = {'Number': 10, 'Hex': 16, 'Oct': 8, 'Bin': 2}[ctx.params['cls']]
    prefix = {10: '', 16: '#x', 8: '#o', 2: '#b'}[base]
    if ctx.params['kind'] == 'int':
        n = ctx.int('n', -300, 300)
        text = cls(n).write_head()
        ctx.check(text[:len(prefix)] == prefix, 'the prefix')
        text = text[len(prefix):]
        ctx.check(value(ctx, text, base) == n, 'the notation')
        if base == 10:
            digit = text[-1]
            ctx.check(ctx.Or(*(digit == c for c in '0123456789')), 'digits')
    else:
        p, q = ctx.size('p', -20, 20), ctx.size('q', 1, 8)
        v = Fraction(p, q)
        if base == 10 and ctx.flag('point'):
            v = p / 8
        text = cls(v).write_head()
        node = parce.root(Scheme.root, text)
        got = cls.read_head(list(node.tokens()))
        ctx.check(got == v and (got.denominator == 1 or type(got) is type(v)) if not isinstance(v, float) else got == v and type(got) is float, 'it reads back')
        if isinstance(v, Fraction):
            num, _, den = text[len(prefix):].partition('/')
            ctx.check(int(num, base) == v.numerator and int(den or '1', base) == v.denominator, 'the notation')


MAPPINGS = [c.__name__ for c in subclasses(element.MappingElement) if c.mapping]


@harness('C25', cases=[dict(cls=c) for c in MAPPINGS], bounds='every word of every element type that has fixed words, and every word of the same length of the same characters')
def words(ctx):
    """An element that stands for fixed words reads and writes each of them, and has no other value."""
    cls = getattr(lily, ctx.params['cls'])
    keys = sorted(cls.mapping)
    lengths = sorted({len(k) for k in keys if k})
    n = ctx.pick('length', lengths)
    text = ctx.text('text', ''.join(sorted(set(''.join(k for k in keys if len(k) == n)))), n)
    known = ctx.Or(*(text == k for k in keys if len(k) == n))
    ctx.assume(known)
    head = cls.read_head([Token(text)])
    node = cls(head)
    ctx.check(node.write_head() == text, 'the same word')
    other = cls.from_mapping(text)
    ctx.check(ctx.And(other.head == head, other.write_head() == text), 'made from the word')
    ctx.check(element.head_mapping(cls)[ctx.concrete(text)] is cls, 'the word stands for the type')
    values = set(cls.mapping.values())
    ctx.check(len(values) == len(keys), 'all words differ')
    for bad in ('nothing', 77, None, ('x', 3)):
        ctx.check(refused(cls, bad), 'other values are an error')


TOGGLES = {r'\break': ('Break', True), r'\noBreak': ('Break', False), r'\pageBreak': ('PageBreak', True), r'\noPageBreak': ('PageBreak', False),
           '(': ('Slur', 'start'), ')': ('Slur', 'stop'), '[': ('Beam', 'start'), ']': ('Beam', 'stop'),
           r'\(': ('PhrasingSlur', 'start'), r'\)': ('PhrasingSlur', 'stop'), '_': ('Direction', -1), '-': ('Direction', 0), '^': ('Direction', 1),
           '!': ('Accidental', 'forced'), '?': ('Accidental', 'cautionary'), r'\voiceOne': ('VoiceN', 1), r'\voiceFour': ('VoiceN', 4),
           r'\slurUp': ('GrobDirection', ('Slur', 1)), r'\slurDown': ('GrobDirection', ('Slur', -1)), r'\slurNeutral': ('GrobDirection', ('Slur', 0)),
           r'\tieDashed': ('GrobStyle', ('Tie', 'dashed')), r'\autoBeamOff': ('Toggle', ('autoBeam', False)), r'\mm': ('Unit', 'mm'),
           r'\[': ('Ligature', 'start'), r'\]': ('Ligature', 'stop'), r'\startTrillSpan': ('TrillSpanner', 'start'), r'\stopTextSpan': ('TextSpanner', 'stop'),
           r'\melismaEnd': ('Melisma', 'stop'), r'\allowPageTurn': ('PageTurn', 'allow'), r'\noPageTurn': ('PageTurn', 'no')}


@harness('C25', bounds='30 words')
def word_values(ctx):
    """Words have the value they stand for in LilyPond."""
    text = ctx.pick('word', sorted(TOGGLES))
    cls, head = TOGGLES[text]
    cls = getattr(lily, cls)
    ctx.check(cls.read_head([Token(text)]) == head, 'the value')
    ctx.check(cls(head).write_head() == text, 'the word')


@harness('C25', cases=[dict(n=n) for n in (0, 1, 2, 3)], bounds='every text of up to three characters of ten')
def markup_language(ctx):
    """Texts in HTML are escaped, and entities and data are written in their notation."""
    n = ctx.params['n']
    head = ctx.text('head', 'a<>&"\'] é;', n)
    text = htm.Text(head).write_head()
    want = ''
    for i in range(n):
        c = head[i]
        for d, e in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')):
            if bool(c == d):
                want = want + e
                break
        else:
            for d, es in (('"', ('&quot;', '&#34;', '"')), ("'", ('&#x27;', '&#39;', '&apos;', "'"))):
                if bool(c == d):
                    i = len(want)
                    want = want + next((e for e in es if len(text) >= i + len(e) and bool(text[i:i + len(e)] == e)), '?')
                    break
            else:
                want = want + c
    ctx.check(text == want, 'escaped')
    if n:
        text = htm.EntityRef(head).write_head()
        ctx.check(text == '&' + head + ';', 'an entity')
        ctx.check(htm.EntityRef.read_head([Token(text)]) == head, 'reads back')
    node = htm.CData(head)
    text = node.write_head()
    if bool(head == ']]>'):
        ctx.check(text == '<![CDATA[]]>]]&gt;<![CDATA[]]>', 'the end of data in data')
    else:
        ctx.check(text == '<![CDATA[' + head + ']]>', 'data')
        tokens = [Token('<!['), Token('CDATA'), Token('[')] + pieces(ctx, head) + ([Token(']]>')] if ctx.flag('closed') else [])
        ctx.check(htm.CData.read_head(tokens) == head, 'reads back')


@harness('C25', bounds='names of up to three characters; all quotes')
def other_notations(ctx):
    """Environments, characters, truth values, quotes and hashes."""
    name = ctx.text('name', 'ab*', ctx.size('n', 1, 3))
    text = tex.EnvironmentName(name).write_head()
    ctx.check(text == '{' + name + '}', 'an environment')
    ctx.check(tex.EnvironmentName.read_head([Token('{'), Token(name), Token('}')]) == name, 'reads back')
    char = ctx.text('char', 'a\\#(', 1) if ctx.flag('one') else name
    text = scm.Char(char).write_head()
    ctx.check(text == '#\\' + char, 'a character')
    ctx.check(scm.Char.read_head([Token(text)]) == char, 'reads back')
    flag = ctx.flag('value')
    text = scm.Bool(flag).write_head()
    ctx.check(text == ('#t' if flag else '#f'), 'a truth value')
    ctx.check(scm.Bool.read_head([Token(text)]) is flag, 'reads back')
    ctx.check(scm.Bool.read_head([Token(text.upper())]) is flag, 'in upper case')
    ctx.check(scm.Bool.read_head([Token('#true' if flag else '#false')]) is flag, 'in full')
    mark = ctx.text('mark', "'`,@$#", ctx.size('marks', 1, 2))
    for cls, good in ((scm.Quote, ("'", '`', ',', ',@')), (lily.Scheme, ('$', '#', '$@', '#@'))):
        valid = ctx.Or(*(mark == g for g in good))
        try:
            node = cls(mark)
        except TypeError:
            ctx.check(ctx.Not(valid), 'an error only for others')
        else:
            ctx.check(ctx.And(valid, node.write_head() == mark), 'only these')
    for cls in (lily.String, lily.Symbol, scm.Identifier, tex.Text, htm.AttrName):
        ctx.check(refused(cls, lily.Note('c')), 'an element is no text')
        node = cls(name)
        ctx.check(ctx.And(node.head == name, not node._modified), 'the text')
        if cls is not lily.String:
            ctx.check(node.write_head() == name, 'as it is')
            ctx.check(cls.read_head([Token(name)]) == name, 'reads back')
            ctx.check(cls.read_head([Token(name[:1]), Token(name[1:])]) == name, 'from more tokens')
