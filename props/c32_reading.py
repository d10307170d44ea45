"""C32: reading.

Documents are composed of pieces (props/fragments.py); their words, names and numbers are symbolic.
"""
import os
from fractions import Fraction

from quickly.dom import base, htm, lily, read, scm, tex
from quickly.lang.lilypond import LilyPond
from vs.ctx import harness
from props import fragments as F
from props import read_common as R

DEBUG = os.environ.get('VS_DEBUG')


def blank_lines(text):
    """The number of blank lines (in LaTeX they end a paragraph)."""
    n = lines = 0
    for c in text:
        if isinstance(c, str) and c == '\n':
            n += 1
            lines += n > 1
        elif not (isinstance(c, str) and c in R.SPACE):
            n = 0
    return lines


def verify(ctx, d, want, lexicon, function, positions=True):
    """Check everything about reading a document."""
    text, sample = d.text, d.sample
    tree, transformer, got = R.read_tree(lexicon, text, sample)
    if DEBUG and not ctx.symbolic and not (R.same_all(ctx, got, want) and R.same_text(ctx, want.write(), text)):
        import sys
        print(repr(text), repr(want.write()), file=sys.stderr)
        got.dump(file=sys.stderr)
        want.dump(file=sys.stderr)
    ctx.check(R.same_text(ctx, want.write(), text), 'the elements are written as the text')
    ctx.check(R.same_all(ctx, got, want), 'the elements of the text')
    if positions:
        R.check_origins(ctx, got, text, sample, lexicon)
    plain = R.read_text(function, text, sample)
    ctx.check(plain.equals(got), 'the elements without positions')
    ctx.check(all(not hasattr(n, 'head_origin') for n in [plain, *plain.descendants()]), 'no positions')
    written = got.write()
    again = R.resample(written, text, sample) if ctx.symbolic else written
    if again is not None:
        node = R.read_text(function, written, again, True)
        if lexicon.language.__name__ == 'Latex':    # whitespace is part of the texts
            ctx.check(R.same_text(ctx, node.write(), text), 'what was written is read and written the same')
            if ctx.params['piece'] not in ('lilypond', 'short'):
                ctx.check(blank_lines(written) == blank_lines(text), 'the blank lines')
        else:
            ctx.check(R.same_all(ctx, node, want), 'what was written is read the same')


def verify_lily(ctx, d, *nodes):
    verify(ctx, d, lily.Document(*nodes), LilyPond.root, read.lily_document)


NEIGHBOURS = {'note': lambda d: d('c') or lily.Note('c'), 'slur': lambda d: d('c4(') or lily.Note('c', lily.Duration(Fraction(1, 4)), lily.Articulations(lily.Slur('start'))),
              'comment': lambda d: d('%{x%}') or lily.MultilineComment('x'), 'bar': lambda d: d('|') or lily.PipeSymbol()}


def flat(*items):
    for n in items:
        if type(n) is list:
            yield from n
        elif n is not None:
            yield n


@harness('C32', cases=[dict(piece=p) for p in F.MUSIC], thorough=[dict(piece=p, rich=True) for p in F.MUSIC],
         bounds='66 pieces of music with words of 1 to 3 symbolic characters; in braces, after a slur or a bar line and before a note or a comment')
def music(ctx):
    """Music in braces: every kind of item after and before others."""
    d = R.Doc(ctx)
    d('{ ')
    a = NEIGHBOURS[ctx.pick('before', ['slur', 'bar', 'note', 'comment'] if 'rich' in ctx.params else ['slur', 'bar'])](d)
    d(' ')
    n = F.MUSIC[ctx.params['piece']](d)
    d(' ')
    b = NEIGHBOURS[ctx.pick('after', ['note', 'comment', 'slur', 'bar'] if 'rich' in ctx.params else ['note', 'comment'])](d)
    d(' }')
    verify_lily(ctx, d, lily.MusicList(*flat(a, n, b)))


@harness('C32', cases=[dict(piece=p) for p in F.OUTSIDE],
         bounds='22 pieces of documents with words of 1 to 3 symbolic characters, between a version, comment or assignment and music or an assignment')
def outside(ctx):
    """A document: every kind of item between two others."""
    d = R.Doc(ctx)
    r = [(lambda: d('\\version "1" ') or lily.Version(lily.String('1')), lambda: d('%{x%} ') or lily.MultilineComment('x'), lambda: d('foo = 3 ') or
          lily.Assignment(lily.Identifier(lily.Symbol('foo')), lily.EqualSign(), lily.Int(3)))[ctx.int('before', 0, 2)]()]
    r.append(F.OUTSIDE[ctx.params['piece']](d))
    d(' ')
    r.append((lambda: d('{ c }') or lily.MusicList(lily.Note('c')), lambda: d('bar = "x"') or
              lily.Assignment(lily.Identifier(lily.Symbol('bar')), lily.EqualSign(), lily.String('x')))[ctx.int('after', 0, 1)]())
    verify_lily(ctx, d, *flat(*r))


@harness('C32', cases=[dict(piece=p) for p in F.MODES], thorough=[dict(piece=p, rich=True) for p in F.MODES],
         bounds='lyrics, chords, figures and drums with words of 1 to 3 symbolic characters')
def modes(ctx):
    """Lyrics, chords, figures and drums."""
    d = R.Doc(ctx)
    verify_lily(ctx, d, F.MODES[ctx.params['piece']](d))


def around(ctx, d):
    """A Doc with a piece; returns the elements."""
    kind = ctx.params['kind']
    piece = ctx.params['piece']
    d.few = 'rich' not in ctx.params and piece in ('chords', 'figures', 'paper', 'layout', 'header')
    if kind == 'music':
        d('{ ')
        n = F.MUSIC[piece](d)
        d(' c }')
        return lily.MusicList(*flat(n, lily.Note('c'))),
    elif kind == 'outside':
        n = F.OUTSIDE[piece](d)
        d(' { c }')
        return *flat(n), lily.MusicList(lily.Note('c'))
    return F.MODES[piece](d),


PIECES = [dict(kind=k, piece=p) for k, v in (('music', F.MUSIC), ('outside', F.OUTSIDE), ('modes', F.MODES)) for p in v if not p.startswith('comment')]


@harness('C32', cases=PIECES, thorough=[dict(p, rich=True) for p in PIECES],
         bounds='90 pieces, with a comment after any one space outside Scheme where the lexer finds it')
def comments(ctx):
    """A comment anywhere between words: the elements are the same, and the comment is there."""
    d = R.Doc(ctx, '%{!%} ')
    nodes = around(ctx, d)
    ctx.assume(d.commented)
    want = lily.Document(*nodes)
    tree, transformer, got = R.read_tree(LilyPond.root, d.text, d.sample)
    if DEBUG and not ctx.symbolic and not R.same(ctx, got, want):
        import sys
        print(repr(d.text), file=sys.stderr)
        got.dump(file=sys.stderr)
    ctx.check(R.same(ctx, got, want), 'the elements')
    found = R.comments(got)
    ctx.check(len(found) == 1 and found[0].head == '!' and type(found[0]) is lily.MultilineComment, 'the comment')
    R.check_origins(ctx, got, d.text, d.sample, LilyPond.root)
    written = got.write()
    again = R.resample(written, d.text, d.sample) if ctx.symbolic else written
    if again is not None:
        node = R.read_text(read.lily_document, written, again)
        ctx.check(R.same(ctx, node, want), 'what was written is read the same')
        ctx.check(len(R.comments(node)) == 1, 'the comment that was written')


@harness('C32', cases=[dict(piece=p) for p in F.SCHEME],
         bounds='15 kinds of expressions with words of 1 or 2 symbolic characters, after and before other expressions and comments')
def schemes(ctx):
    """A Scheme document: every kind of expression in a list, after and before others, with comments."""
    d = R.Doc(ctx)
    d('(')
    nodes = []
    before = ctx.pick('before', ['name', 'comment', 'string', ''])
    if before:
        nodes.append(F.scheme_datum(d, before) if before != 'comment' else scm.MultilineComment('x'))
        d('#!x!# ' if before == 'comment' else ' ')
    nodes.append(F.scheme_datum(d, ctx.params['piece']))
    after = ctx.pick('after', ['number', 'comment', ''])
    if after == 'comment':
        d('; x\n')
        nodes.append(scm.SinglelineComment(' x'))
    elif after:
        d(' ')
        nodes.append(F.scheme_datum(d, after))
    d(')')
    from quickly.lang.scheme import Scheme
    verify(ctx, d, scm.Document(scm.List(*nodes)), Scheme.root, read.scm_document)


@harness('C32', cases=[dict(piece=p) for p in F.SCHEME],
         bounds='15 kinds of expressions with words of 1 or 2 symbolic characters, in four places')
def scheme_in_lilypond(ctx):
    """A Scheme expression in music and in an assignment."""
    d = R.Doc(ctx)
    c = ctx.pick('how', ['foo = #', '{ c $', '{ c #', '#'])
    d(c)
    n = lily.Scheme(c[-1], F.scheme_datum(d, ctx.params['piece']))
    if c == '#':
        d(' { c }')
        nodes = n, lily.MusicList(lily.Note('c'))
    elif c[0] == 'f':
        nodes = lily.Assignment(lily.Identifier(lily.Symbol('foo')), lily.EqualSign(), n),
    else:
        d(' d }')
        nodes = lily.MusicList(lily.Note('c'), n, lily.Note('d')),
    verify_lily(ctx, d, *nodes)


@harness('C32', cases=[dict(piece=p) for p in F.TEX],
         bounds='7 kinds of items with words of 2 or 3 symbolic characters between others, also with options and arguments, and with newlines')
def latex(ctx):
    """A LaTeX document: every kind of item between others."""
    from quickly.lang.latex import Latex
    d = R.Doc(ctx)
    d.plain = True
    nodes = [F.tex_text(d)]
    lines = ctx.params['piece'] in ('environment', 'comment', 'math')
    nodes[0].head = nodes[0].head + d.pick(('', '\n', '\n\n  ') if lines else ('',))
    if not lines and ctx.flag('before'):
        nodes += F.tex_piece(d, 'brace')
    more = F.tex_piece(d, ctx.params['piece'])
    nodes += more
    space = d.pick((' ', '\n', '\n\n') if lines else (' ',))
    if type(nodes[-1]) is tex.Text:
        nodes[-1].head = nodes[-1].head + space
    else:
        nodes.append(tex.Text(space))
    after = ctx.pick('after', ['text', 'math', 'short'][:2 if lines else 3])
    if after == 'text':
        nodes[-1].head = nodes[-1].head + F.tex_text(d).head
    else:
        nodes += F.tex_piece(d, after)
    verify(ctx, d, tex.Document(*nodes), Latex.root, read.tex_document)


@harness('C32', cases=[dict(piece=p) for p in F.HTML], thorough=[dict(piece=p, rich=True) for p in F.HTML],
         bounds='10 kinds of elements with words of 2 or 3 symbolic characters between others, also with attributes')
def html(ctx):
    """An HTML document: every kind of element between others."""
    from quickly.lang.html import Html
    d = R.Doc(ctx)
    d.plain = True
    nodes = []
    if ctx.flag('before'):
        d.simple = True
        nodes += F.htm_piece(d, 'single')
        d.simple = False
    if ctx.flag('text'):
        nodes.append(htm.Text(d.word('abc', 2)))
    nodes += F.htm_piece(d, ctx.params['piece'])
    after = ctx.pick('after', ['text', 'short', ''])
    if after == 'text':
        nodes.append(htm.Text(d.word('abc', 2)))
    elif after:
        d.simple = True
        nodes += F.htm_piece(d, after)
    verify(ctx, d, htm.Document(*nodes), Html.root, read.htm_document)


@harness('C32', bounds='a tempo of two digits, and a second one of two digits')
def tempo_range(ctx):
    """A tempo with a range."""
    d = R.Doc(ctx)
    d(r'{ \tempo 4 = ')
    d.number('1234', 2)
    d('-')
    d.number('56789', 2)
    d(' c }')
    tree, transformer, got = R.read_tree(LilyPond.root, d.text, d.sample)
    ctx.check(R.same_text(ctx, got.write(), d.text), 'the range is read and written', known=('tempo-range', True))
