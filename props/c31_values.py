"""C31: Scheme, HTML and LaTeX elements from values."""
import html
import math
from fractions import Fraction

from quickly.dom import htm, lily, read, scm, tex
from vs.ctx import harness
from props import read_common as R


class Values:
    """Values, and the elements that they should become."""
    def __init__(self, ctx, reading=False):
        self.ctx = ctx
        self.d = R.Doc(ctx)
        self.reading = reading
        self.count = 0

    def __call__(self, kind, depth):
        """A value and its element."""
        ctx = self.ctx
        self.count += 1
        if kind == 0:
            v = ctx.pick('number%d' % self.count, (12, -7)) if self.reading else ctx.int('number%d' % self.count, -1000, 1000)
            return v, scm.Number(v)
        if kind == 1:
            v = ctx.flag('bool%d' % self.count)
            return v, scm.Bool(v)
        if kind == 2:
            v = self.d.word('a1 ;(' if self.reading else 'a"\\( ', 2)
            return v, scm.String(v)
        if kind == 3:
            v = ctx.pick('number%d' % self.count, (Fraction(1, 3), -0.5, Fraction(-7, 2), 1e-7, math.inf))
            return v, scm.Number(v)
        if kind == 4:
            w = self.d.word('ab-?', 2) if not self.reading else self.d.word('abc', 2)
            return scm.Identifier(w), scm.Identifier(w)
        if kind == 5:
            w = self.d.word('abc', 1)
            c = ctx.pick('quote%d' % self.count, ('q', 'qq', 'uq'))
            if depth:
                v, e = self(self.kind(depth - 1), depth - 1)
            else:
                v, e = scm.i(w), scm.Identifier(w)
            return getattr(scm, c)(v), scm.Quote({'q': "'", 'qq': '`', 'uq': ','}[c], e)
        return self.sequence(kind, depth)

    def sequence(self, kind, depth):
        n = self.ctx.size('length%d' % self.count, 2 if kind == 7 else 0, 3 if depth > 1 else 2)
        both = [self(self.kind(depth - 1), depth - 1) for i in range(n)]
        v = [b[0] for b in both]
        nodes = [b[1] for b in both]
        if kind == 6:
            return v, scm.List(*nodes)
        nodes.insert(len(nodes) - 1, scm.Dot())
        if self.ctx.flag('p%d' % self.count):
            return scm.p(*v), scm.List(*nodes)
        return tuple(v), scm.List(*nodes)

    def kind(self, depth):
        return self.ctx.int('kind%d' % (self.count + 1), 0, 7 if depth else 5 if self.ctx.params.get('deep') else 4)


KINDS = [dict(kind=k) for k in range(8)]


@harness('C31', cases=KINDS, thorough=[dict(kind=k, deep=True) for k in range(8)],
         bounds='numbers from -1000 to 1000, five other numbers, truth values, texts and names of two characters, quoted; lists and pairs of up to three of these')
def scheme_values(ctx):
    """A value becomes the Scheme element that stands for it."""
    v = Values(ctx)
    depth = 1 if not ctx.params.get('deep') else 2
    value, want = v(ctx.params['kind'], depth)
    node = scm.create_element_from_value(value)
    ctx.check(R.same(ctx, node, want), 'the elements')
    ctx.check(node is value or ctx.params['kind'] not in (4, 5), 'elements are not copied')
    if ctx.params['kind'] not in (4, 5, 7):
        other = scm.s(value)
        ctx.check(other is not node and R.same(ctx, other, want), 'the same with a short name')


@harness('C31', cases=KINDS, bounds='as above, with two numbers')
def scheme_values_read(ctx):
    """What a Scheme element writes, is read as the same element, alone and in LilyPond music."""
    v = Values(ctx, True)
    value, want = v(ctx.params['kind'], 1)
    node = scm.s(value)
    text = node.write()
    sample = R.resample(text, v.d.text, v.d.sample) if ctx.symbolic else text
    got = R.read_text(read.scm, text, sample)
    ctx.check(R.same(ctx, got, want), 'read as Scheme')
    text = lily.Scheme('#', node).write()
    sample = R.resample(text, v.d.text, v.d.sample) if ctx.symbolic else text
    got = R.read_text(read.lily, text, sample)
    ctx.check(R.same(ctx, got, lily.Scheme('#', want)), 'read as LilyPond')


@harness('C31', bounds='nine values')
def scheme_no_values(ctx):
    """Other values are refused; what is not a number stays so."""
    value = ctx.pick('value', (None, b'x', {}, set(), object, 2j, Ellipsis, math.nan, float('nan')))
    if isinstance(value, float):
        ctx.check(scm.s(value).write() == '+nan.0', 'not a number')
    else:
        try:
            scm.create_element_from_value(value)
        except KeyError:
            pass
        else:
            ctx.check(False, 'refused')


FIRST = {'scm': [('12 13', lambda: scm.Number(12)), ('', None), ('; a\n x', lambda: scm.SinglelineComment(' a')), ('(a) b', lambda: scm.List(scm.Identifier('a')))],
         'lily': [('c d', lambda: lily.Note('c')), ('  ', None), ('% a\n x', lambda: lily.SinglelineComment(' a')), ('\\score { } \\book {}', lily.Score),
                  ('1/2', lambda: lily.Fraction((1, 2))), ('##xa', lambda: lily.Scheme('#', scm.Hex(10)))],
         'htm': [('<p/>x', lambda: htm.Element(htm.SingleTag(htm.TagName('p')))), ('', None), ('x<p/>', lambda: htm.Text('x'))],
         'tex': [('\\a b', lambda: tex.Command('a')), ('', None), ('x\\a', lambda: tex.Text('x'))]}


@harness('C31', cases=[dict(language=l) for l in sorted(FIRST)], bounds='three to six texts for each language')
def first_element(ctx):
    """Reading one element gives the first of the text, or None if there is none."""
    text, want = ctx.pick('text', FIRST[ctx.params['language']])
    node = getattr(read, ctx.params['language'])(text)
    if want is None:
        ctx.check(node is None, 'nothing')
    else:
        ctx.check(R.same(ctx, node, want()), 'the element')


SPECIAL = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}


def escaped(ctx, text):
    out = ''
    for i in range(len(text)):
        c = text[i]
        for s, e in SPECIAL.items():
            if bool(c == s):
                out = out + e
                break
        else:
            out = out + c
    return out


class Html:
    """Elements made by m, and what they should write and say."""
    def __init__(self, ctx, alphabet):
        self.ctx = ctx
        self.d = R.Doc(ctx)
        self.count = 0
        self.alphabet = alphabet

    def attrs(self):
        a, text = {}, ''
        for i, name in enumerate(('title', 'name', 'data-x', 'self')[:self.ctx.size('attrs%d' % self.count, 0, self.ctx.params.get('attrs', 2))]):
            if self.ctx.flag('value%d%d' % (self.count, i)):
                v = self.d.word(self.alphabet if i == 0 else self.alphabet[:2], 1 + (i == 0))
                a[name] = v
                text = text + ' ' + name + '="' + escaped(self.ctx, v) + '"'
            else:
                a[name] = None
                text = text + ' ' + name
        return a, text

    def __call__(self, depth):
        """The element, the text that should be written, and the text in it."""
        ctx = self.ctx
        self.count += 1
        name = ctx.pick('name%d' % self.count, ('p', 'x:y') if depth else ('p', 'h1'))
        a, attrs = self.attrs()
        children, inner, plain = [], '', ''
        for i in range(ctx.size('children%d' % self.count, 0, ctx.params['children'] if self.count == 1 else 1)):
            kind = ctx.int('child%d%d' % (self.count, i), 0, 4 if depth else 3)
            if kind == 0:
                w = self.d.word(self.alphabet, 1)
                children.append(w)
                inner, plain = inner + escaped(ctx, w), plain + w
            elif kind == 1:
                children.append(htm.EntityRef('lt'))
                inner, plain = inner + '&lt;', plain + '<'
            elif kind == 2:
                children.append(htm.Comment('c'))
                inner = inner + '<!--c-->'
            elif kind == 3:
                children.append(htm.CData('d<'))
                inner, plain = inner + '<![CDATA[d<]]>', plain + 'd<'
            else:
                c, t, p = self(depth - 1)
                children.append(c)
                inner, plain = inner + t, plain + p
        node = getattr(htm.m, name)(*children, **a) if ':' not in name and 'self' not in a else htm.m(name, *children, **a)
        text = '<' + name + attrs + ('>' + inner + '</' + name + '>' if children else '/>')
        return node, text, plain


HTML = [dict(depth=0, attrs=3, children=1), dict(depth=0, attrs=1, children=2), dict(depth=1, attrs=1, children=1), dict(depth=1, attrs=0, children=2)]


@harness('C31', cases=HTML, bounds='elements with up to three attributes or two children, texts of one or two characters of four, entities, comments and data; or elements in elements with at most one attribute')
def html_elements(ctx):
    """Elements made with m are written with their attributes and contents, quoted and escaped."""
    h = Html(ctx, 'a"<&')
    if ctx.params['depth']:
        h.alphabet = 'a<'
    node, text, plain = h(ctx.params['depth'])
    ctx.check(type(node) is htm.Element, 'an element')
    ctx.check(node.write() == text, 'the text')
    ctx.check(node.to_plaintext() == plain, 'the plain text')


@harness('C31', cases=HTML, bounds='as above, texts of letters, entities, comments and data')
def html_elements_read(ctx):
    """What was written reads back as the same element."""
    h = Html(ctx, 'ab1')
    node, text, plain = h(ctx.params['depth'])
    text = node.write()
    sample = R.resample(text, h.d.text, h.d.sample) if ctx.symbolic else text
    got = R.read_text(read.htm, text, sample)
    ctx.check(type(got) is htm.Element, 'one element')
    ctx.check(got.write() == text, 'the text')
    ctx.check(got.to_plaintext() == plain, 'the plain text')
    ctx.check(len(list(got // htm.Element)) == len(list(node // htm.Element)), 'the elements')
    ctx.check(len(list(got // htm.Attribute)) == len(list(node // htm.Attribute)), 'the attributes')


ENTITIES = {'amp': '&', 'lt': '<', 'eacute': 'é', '#65': 'A', '#x42': 'B', 'nothing': '&nothing;'}


def content(ctx, counter, depth, words):
    """Children for an element, and their text where every entity is a call of resolve."""
    nodes, text = [], []
    for i in range(ctx.size('count%d' % counter[0], 0, 2 if depth else 1)):
        counter[0] += 1
        kind = ctx.int('kind%d' % counter[0], 0, 4 if depth else 3)
        if kind == 0:
            w = words.word('ab&<', 2)
            nodes.append(htm.Text(w))
            text.append(('text', w))
        elif kind == 1:
            e = ctx.pick('entity%d' % counter[0], ('amp', '#65', 'own'))
            nodes.append(htm.EntityRef(e))
            text.append(('entity', e))
        elif kind == 2:
            w = words.word('a]<', 1)
            nodes.extend((htm.Comment('x'), htm.CData(w)))
            text.append(('text', w))
        elif kind == 3:
            nodes.append(htm.Element(htm.SingleTag(htm.TagName('br'))))
        else:
            counter[0] += 1
            n, t = content(ctx, counter, depth - 1, words)
            nodes.append(htm.Element(htm.OpenTag(htm.TagName('p'), htm.Attribute(htm.AttrName('title'), htm.EqualSign(), htm.DqString(htm.Text('no')))), *n,
                                     htm.CloseTag(htm.TagName('p'))))
            text.extend(t)
    return nodes, text


@harness('C31', cases=[dict(resolver=r) for r in ('default', 'text', 'node', 'entity', 'element')],
         bounds='elements with up to two children one level deep, texts of two characters, three entities; resolvers that give a text, a Text, another entity or an element')
def plain_text(ctx):
    """The plain text has all texts in order, and every entity, at every level, as the resolver says."""
    words = R.Doc(ctx)
    nodes, pieces = content(ctx, [0], 1, words)
    element = htm.Document(*nodes) if ctx.flag('document') else htm.Element(*nodes)
    kind = ctx.params['resolver']
    calls = []

    def resolver(name):
        calls.append(name)
        if kind == 'text' or name == 'own2':
            return '[' + name + ']'
        if kind == 'node':
            return htm.Text('[' + name + ']')
        if kind == 'entity':
            return htm.EntityRef('own2')
        return htm.Element(htm.Text('['), htm.Element(htm.EntityRef('own2')), htm.Comment('no'), htm.Text(']'))
    want = ''
    for what, t in pieces:
        if what == 'text':
            want = want + t
        elif kind == 'default':
            want = want + html.unescape('&' + t + ';')
        else:
            want = want + {'text': '[' + t + ']', 'node': '[' + t + ']', 'entity': '[own2]', 'element': '[[own2]]'}[kind]
    got = element.to_plaintext() if kind == 'default' else element.to_plaintext(resolver)
    ctx.check(got == want, 'the text')
    ctx.check(kind == 'default' or [c for c in calls if c != 'own2'] == [t for w, t in pieces if w == 'entity'], 'every entity is resolved once')


@harness('C31', bounds='names of up to three letters, no to two children')
def tex_environments(ctx):
    """An environment made by its name has its begin and its end, and is read back."""
    d = R.Doc(ctx)
    name = d.word('abx', ctx.size('length', 1, 3))
    kinds = [ctx.int('child%d' % i, 0, 1) for i in range(ctx.size('children', 0, 2))]
    words = [d.word('abc', 2) for k in kinds]
    make = lambda: [tex.Text(w) if k == 0 else tex.Command('x', tex.Brace(tex.Text(w))) for k, w in zip(kinds, words)]
    children = make()
    node = tex.Environment.with_name(name, *children)
    ctx.check(type(node) is tex.Environment and len(node) == len(kinds) + 2, 'an environment')
    ctx.check(all(a is b for a, b in zip(node[1:-1], children)), 'the children')
    want = [tex.Command('begin', tex.EnvironmentName(name)), *make(), tex.Command('end', tex.EnvironmentName(name))]
    ctx.check(ctx.And(*(R.same(ctx, a, b) for a, b in zip(node, want))), 'begin and end')
    text = node.write()
    inner = ''
    for k, w in zip(kinds, words):
        inner = inner + (w if k == 0 else '\\x{' + w + '}')
    if kinds:
        ctx.check(text == '\\begin{' + name + '}\n' + inner + '\n\\end{' + name + '}', 'the text')
    else:
        ctx.check(text == '\\begin{' + name + '}\n\\end{' + name + '}', 'the text')
    sample = R.resample(text, d.text, d.sample) if ctx.symbolic else text
    got = R.read_text(read.tex, text, sample)
    ctx.check(type(got) is tex.Environment and got.write() == text, 'it reads back')
    ctx.check(R.same(ctx, got[0], want[0]), 'the begin')
    ctx.check(R.same(ctx, got[-1], want[-1]), 'the end')
