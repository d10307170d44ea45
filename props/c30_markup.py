"""C30: markup made by hand."""
import inspect
import keyword

from parce.lang import lilypond_words
from parce.lang.lilypond import LilyPond
from quickly.dom import lily, read, scm
from quickly.dom import markup as m
from vs.ctx import harness
from props import read_common as R

COMMANDS = [(cmd, n) for n, cmds in enumerate(lilypond_words.markup_commands_nargs) for cmd in sorted(cmds)]

# the arguments of commands that have them in their own form, as in the manual of LilyPond:
# T text in Scheme, t text, y symbol, n number in Scheme, h hexadecimal, P pair of two numbers, B two pairs of coordinates (x1 y1 x2 y2),
# O property and value, m markup, M the rest is one markup, v Scheme value, d duration, e an element
FORMS = {
    'char': 'h', 'tied-lyric': 'T', 'fret-diagram': 'T', 'fret-diagram-terse': 'T', 'fret-diagram-verbose': 'e', 'fromproperty': 'y', 'harp-pedal': 't',
    'justify-field': 'y', 'justify-string': 'T', 'lookup': 'T', 'musicglyph': 'T', 'postscript': 'T', 'rest': 'd', 'verbatim-file': 'T', 'wordwrap-field': 'y',
    'wordwrap-string': 'T', 'note': 'dn', 'override': 'OM', 'override-lines': 'OM', 'translate': 'PM', 'translate-scaled': 'PM', 'with-link': 'yM', 'with-url': 'TM',
    'woodwind-diagram': 'ye', 'draw-squiggle-line': 'nPv', 'epsfile': 'nnT', 'filled-box': 'Bn', 'note-by-number': 'nnn', 'pad-to-box': 'BM', 'page-ref': 'ymM',
    'with-dimensions': 'BM', 'fill-with-pattern': 'nnmmm', 'score': 'S', 'score-lines': 'S',
}


class Args:
    """Arguments, and the elements that they should become."""
    def __init__(self, ctx, d):
        self.ctx = ctx
        self.d = d
        self.args = []
        self.want = []
        self.count = 0

    def number(self):
        self.count += 1
        name = 'number%d' % self.count
        if self.ctx.params.get('read'):
            return self.ctx.pick(name, (7, -2.5))
        return self.ctx.int(name, -1000, 1000) if self.count != 2 else self.ctx.pick(name, (1.5, -3, 0))

    def word(self, alphabet='abZ-.', n=2):
        return self.d.word(alphabet, n)

    def scheme(self, node):
        return lily.Scheme('#', node)

    def symbol(self, w):
        return self.scheme(scm.Quote("'", scm.Identifier(w)))

    def pair(self, x, y):
        return self.scheme(scm.Quote("'", scm.List(x, scm.Dot(), y)))

    def markup(self, kind):
        """A markup argument: (argument, element)."""
        if kind == 0:
            w = self.word()
            return w, lily.MarkupWord(w)
        if kind == 1:
            v = self.number()
            return v, self.scheme(scm.Number(v))
        if kind == 2:
            self.count += 1
            w = self.ctx.pick('special%d' % self.count, ('a b', '"', '{\\')) if self.ctx.params.get('read') else self.word('a {\\"#', 1)
            return w, (lily.MarkupWord(w) if self.ctx.concrete(w == 'a') else lily.String(w))
        if kind == 3:
            b = self.ctx.flag('bool%d' % self.count)
            return b, self.scheme(scm.Bool(b))
        w = self.word()
        make = lambda: lily.MarkupCommand('italic', lily.MarkupWord(w))
        return make(), make()

    def add(self, form, kinds):
        s, a = self.scheme, self.args
        if form in 'Tt':
            w = self.word('a1 ;', 2)
            a.append(w)
            self.want.append(s(scm.String(w)) if form == 'T' else lily.String(w))
        elif form == 'y':
            w = self.word('abz', 2)
            a.append(w)
            self.want.append(self.symbol(w))
        elif form in 'nvh':
            if form == 'v':
                v = self.ctx.flag('value')
            elif form == 'h':
                v = self.ctx.pick('code', (65, 0x1d15e)) if self.ctx.params.get('read') else self.ctx.int('code', 0, 0xffff)
            else:
                v = self.number()
            a.append(v)
            self.want.append(s((scm.Hex if form == 'h' else scm.Bool if form == 'v' else scm.Number)(v)))
        elif form == 'P':
            x, y = self.number(), self.number()
            a.extend((x, y))
            self.want.append(self.pair(scm.Number(x), scm.Number(y)))
        elif form == 'B':
            x1, y1, x2, y2 = (self.number() for i in range(4))
            a.extend((x1, y1, x2, y2))
            self.want.append(self.pair(scm.Number(x1), scm.Number(x2)))
            self.want.append(self.pair(scm.Number(y1), scm.Number(y2)))
        elif form == 'O':
            w = self.word('abz', 2)
            kind = kinds[0]
            if kind == 0:
                v = self.number()
                e = scm.Number(v)
            elif kind == 1:
                v = self.ctx.flag('value')
                e = scm.Bool(v)
            elif kind == 2:
                v = self.word('ab ', 2)
                e = scm.String(v)
            else:
                v = scm.Identifier('red')
                e = scm.Identifier('red')
            a.extend((w, v))
            self.want.append(self.pair(scm.Identifier(w), e))
        elif form == 'd':
            if kinds[0] < 2:
                w = self.word('1248', 1)
                a.append(w)
                self.want.append(lily.MarkupList(lily.MarkupWord(w)))
            else:
                a.append(lily.Scheme('#', scm.String('4..')))
                self.want.append(lily.Scheme('#', scm.String('4..')))
        elif form == 'e':
            make = lambda: lily.Scheme('#', scm.Quote("'", scm.List(scm.Number(1))))
            a.append(make())
            self.want.append(make())
        elif form == 'm':
            arg, e = self.markup(kinds[0])
            a.append(arg)
            self.want.append(e)
        elif form == 'M':
            nodes = []
            for k in kinds:
                arg, e = self.markup(k)
                a.append(arg)
                nodes.append(e)
            self.want.append(nodes[0] if len(nodes) == 1 else lily.MarkupList(*nodes))


KINDS = [(0,), (4,), (0, 0), (1,), (2,), (3, 0), (), (4, 1)]


FEW = [(0,), (4, 1), (2, 0), ()]


def function(cmd):
    name = cmd.replace('-', '_')
    return getattr(m, name + '_' if keyword.iskeyword(name) else name)


def made(ctx, cmd, nargs):
    """The command, made by its function, what it should be, and the document of its words."""
    d = R.Doc(ctx)
    args = Args(ctx, d)
    form = FORMS.get(cmd) or 'm' * (nargs - 1) + 'M' * (nargs > 0)
    kinds = ctx.pick('kinds', FEW if ctx.params.get('read') else KINDS) if form[-1:] in ('M', 'O') else [ctx.int('kind', 0, 4)]
    if form == 'S':
        music = [lambda: lily.MusicList(lily.Note('c'))] + [lambda: lily.Layout()] * ctx.flag('layout')
        want = (lily.MarkupScore if cmd == 'score' else lily.MarkupScoreLines)(*(f() for f in music))
        return function(cmd)(*(f() for f in music)), want, d
    for f in form:
        args.add(f, kinds or [0])  if f != 'M' else args.add(f, kinds)
    f = function(cmd)
    return f(*args.args), lily.MarkupCommand(cmd, *args.want), d


GROUPS = [COMMANDS[i:i + 15] for i in range(0, len(COMMANDS), 15)]


def chosen(ctx):
    group = GROUPS[ctx.params['group']]
    return group[ctx.int('command', 0, len(group) - 1)]


@harness('C30', cases=[dict(group=i) for i in range(len(GROUPS))],
         bounds='every markup command the lexer knows (126), arguments that are words and texts of up to two characters, numbers from -1000 to 1000, truth values and markups; the last argument one, two or none of these')
def markup_commands(ctx):
    """The function of a markup command makes the command with the arguments that LilyPond wants."""
    cmd, nargs = chosen(ctx)
    node, want, d = made(ctx, cmd, nargs)
    ctx.check(type(node) is type(want), 'the type')
    ctx.check(ctx.pytype(node) is type(want) and node.head == want.head, 'the name of the command')
    ctx.check(nargs == len(node) or type(node) is not lily.MarkupCommand, 'the number of arguments')
    ctx.check(R.same(ctx, node, want), 'the arguments')


@harness('C30', cases=[dict(group=i, read=True) for i in range(len(GROUPS))],
         bounds='as above, with two numbers and four combinations of last arguments; the command is followed by a word; not fill-with-pattern (parce 0.33 cannot read a command with five arguments)')
def markup_commands_read(ctx):
    """What is written is read again as the same markup."""
    cmd, nargs = chosen(ctx)
    ctx.assume(cmd != 'fill-with-pattern')
    node, want, d = made(ctx, cmd, nargs)
    after = lily.MarkupWord('end')
    doc = lily.Document(m.markup(node, after))
    text = doc.write()
    sample = R.resample(text, d.text, d.sample) if ctx.symbolic else text
    got = R.read_text(read.lily_document, text, sample)
    ctx.check(R.same(ctx, got, lily.Document(lily.Markup('markup', lily.MarkupList(want, lily.MarkupWord('end'))))), 'it reads back')


SPECIAL = '{}"\\$# \n'


@harness('C30', cases=[dict(n=n) for n in (0, 1, 2, 3)], thorough=[dict(n=n) for n in (0, 1, 2, 3, 4)],
         bounds='every text of up to three (thorough: four) characters of twelve')
def markup_words(ctx):
    """A text is written as a word if that is the same for LilyPond, and as a string otherwise."""
    n = ctx.params['n']
    text = ctx.text('text', 'a1-%' + SPECIAL, n)
    plain = n > 0 and ctx.And(*(c != s for c in (text[i] for i in range(n)) for s in SPECIAL), text[0] != '%')
    if m.is_markup(text):
        ctx.check(plain, 'it is a word')
    else:
        ctx.check(ctx.Not(plain), 'it is not a word')
    node = m.bold(text)[0]
    ctx.check(type(node) is (lily.MarkupWord if m.is_markup(text) else lily.String), 'the type')
    ctx.check(node.head == text, 'the text')
    if not ctx.symbolic:
        doc = lily.Document(m.markup(m.bold(text), text))
        ctx.check(read.lily_document(doc.write()).equals(doc), 'it reads back')


@harness('C30', cases=[dict(list=l) for l in (False, True)], bounds='no to three arguments of five kinds')
def markup_lists(ctx):
    """One argument is not put between brackets, more or none are; a markup list always is."""
    d = R.Doc(ctx)
    args = Args(ctx, d)
    kinds = [ctx.int('kind%d' % i, 0, 4) for i in range(ctx.size('count', 0, 3))]
    args.add('M', kinds)
    if ctx.params['list']:
        node = m.markuplist(*args.args)
        want = lily.Markup('markuplist', lily.MarkupList(*([args.want[0]] if len(kinds) == 1 else list(args.want[0]))))
    else:
        node = m.markup(*args.args)
        want = lily.Markup('markup', args.want[0])
    ctx.check(type(node) is lily.Markup and node.head == want.head, 'the command')
    ctx.check(R.same(ctx, node, want), 'the arguments')
