"""C27: keeping the layout and the unknown parts of a text; version and comments."""
from quickly.dom import base, element, htm, lily, read, scm, util
from quickly.lang.html import Html
from quickly.lang.lilypond import LilyPond
from quickly.lang.scheme import Scheme
from vs.ctx import harness
from props import read_common as R

GAPS = (' ', '\n', '\n\n ', ' \n\n\n\n  ')


class Lines:
    """A text with gaps of which one or two can be anything."""
    def __init__(self, ctx, gaps=2):
        self.ctx = ctx
        self.d = R.Doc(ctx)
        self.n = 0
        count = ctx.params['count']
        first = ctx.int('gap', 0, count - 1)
        self.where = {first + i for i in range(gaps)}

    def gap(self):
        if self.n in self.where:
            self.d(self.ctx.pick('gap%d' % (self.n - min(self.where)), GAPS))
        else:
            self.d(' ')
        self.n += 1


# pieces: a list of texts, with None for a word
TEXTS = {
    'music': ['{', 'c4', '%{ a\n b %}', '<', 'e', 'g', '>', 'd', '-"x\ny"', '}', 'e'],
    'blocks': ['\\score', '{', '\\new', 'Staff', '{', None, '}', '\\layout', '{', 'indent', '=', '1', '}', '}'],
    'open': ['\\relative', '{', 'c', '{', 'd', '<<', None, '\\\\', '{', 'f'],
    'commented': ['{', 'c', '% a\n', 'd', None, '}', '% b\n', '{', 'e', '}', '\\markup', '{', 'x', '}'],
    'assign': [None, '=', '{', 'c', '}', 'x', '=', '#(a b)', '\\paper', '{', 'a', '=', '1\\mm', '}'],
}
SCHEMES = {'scheme': ['(', 'define', 'x', '(', None, ')', ')', '; a\n', '#(', 'b', '"a\nb"', ')', "'", 'x'],
           'unclosed': ['(', 'a', '(', None, '#t', '#(']}


def plain_gaps(node):
    """The texts of the node and the newlines wanted between them."""
    points = list(node.points())
    return [(p.text(), max(p.space_after.count('\n'), q.space_before.count('\n'))) for p, q in zip(points, points[1:])] + [(p.text(), 0) for p in points[-1:]]


def gaps_of(ctx, written, texts):
    """The newlines between the texts in what was written; None if it is something else."""
    pos, result = 0, []
    for t in texts:
        lines = 0
        while pos < len(written) and isinstance(written[pos], str) and written[pos] in R.SPACE and not (isinstance(t[0], str) and t[0] == written[pos]):
            lines += written[pos] == '\n'
            pos += 1
        if not ctx.concrete(written[pos:pos + len(t)] == t):
            return None
        pos += len(t)
        result.append(lines)
    return result if pos == len(written) else None


CASES = [dict(text=t, scheme=s, count=len(p)) for s, ts in ((False, TEXTS), (True, SCHEMES)) for t, p in ts.items()]


@harness('C27', cases=CASES,
         bounds='seven texts, also with brackets that are not closed, of up to 14 words, one symbolic; any two gaps next to each other are one of four, the others one space; a maximum of 10, 1 or 0 newlines')
def newlines_kept(ctx):
    """Lines that were broken in the text are broken when the elements are written, and no others."""
    lines = Lines(ctx)
    d = lines.d
    pieces = (SCHEMES if ctx.params['scheme'] else TEXTS)[ctx.params['text']]
    for p in pieces:
        if p is None:
            d.word('abc', 2)
        else:
            d(p)
        lines.gap()
    lexicon = Scheme.root if ctx.params['scheme'] else LilyPond.root
    tree, transformer, node = R.read_tree(lexicon, d.text, d.sample)
    plain = plain_gaps(node)
    points = [p for p in node.points()]
    texts = [t for t, n in plain]
    limit = ctx.pick('limit', (10, 1, 0))
    util.add_newlines(node, d.text, max_blank_lines=limit)
    written = node.write()
    got = gaps_of(ctx, written, texts)
    ctx.check(got is not None, 'the same texts')
    if got is not None:
        for i in range(1, len(texts)):
            a, b = points[i-1], points[i]
            wanted = plain[i-1][1]
            if a.pos is not None and b.pos is not None and a.pos != a.end and b.pos != b.end:
                between = d.text[a.end:b.pos]
                wanted = max(wanted, min(limit, sum(1 for c in between if isinstance(c, str) and c == '\n')))
            ctx.check(got[i] == wanted, 'the newlines before a text')


@harness('C27', bounds='three blocks that end at every second newline, blank lines or lines')
def newlines_blocks(ctx):
    """Blocks can be separated by something else than one newline."""
    ctx_gaps = [ctx.pick('gap%d' % i, (' ', '\n', '\n\n', '\n \n')) for i in range(3)]
    separator = ctx.pick('separator', ('\n', '\n\n'))
    text = '{ c' + ctx_gaps[0] + 'd' + ctx_gaps[1] + 'e' + ctx_gaps[2] + 'f }'
    node = read.lily_document(text, True)
    util.add_newlines(node, text, separator)
    got = gaps_of(ctx, node.write(), ['{', 'c', 'd', 'e', 'f', '}'])
    ctx.check(got == [0, 0, *(g.count(separator) for g in ctx_gaps), 0], 'one newline for each separator')


UNKNOWNS = {'doctype': ['<!DOCTYPE html>', '<p/>'], 'style': ['<p>', '<style>p { a: b }</style>', '</p>'], 'script': ['a', '<script>a();</script>', '<br/>'],
            'attribute': ['<p style="a: b">', 'x', '</p>'], 'many': ['<!DOCTYPE a>', '<p>', '<style>a {}</style>', '<script>x</script>', '</p>']}


@harness('C27', cases=[dict(text=t) for t in sorted(UNKNOWNS)], bounds='five HTML texts with scripts, styles and a document type between symbolic words')
def unknown_replaced(ctx):
    """Parts that are not understood are written as they are in the text, after they are replaced; not before."""
    d = R.Doc(ctx)
    for p in UNKNOWNS[ctx.params['text']]:
        d.solid(p)
        if ctx.flag('word_at%d' % len(d.sample)):
            d.word('abc', 2)
    tree, transformer, node = R.read_tree(Html.root, d.text, d.sample)
    unknown = list(node // base.Unknown)
    ctx.check(len(unknown) == sum(p.startswith(('<!', '<s')) or 'style=' in p for p in UNKNOWNS[ctx.params['text']]), 'what is unknown')
    try:
        node.write()
    except RuntimeError:
        pass
    else:
        ctx.check(False, 'it can not be written')
    ctx.check(not list(node.edits(tree)), 'no edits')
    positions = [(n.pos, n.end) for n in unknown]
    others = [n for n in node.descendants() if not isinstance(n, base.Unknown)]
    util.replace_unknown(node, d.text)
    ctx.check(not any(node // base.Unknown), 'all are replaced')
    texts = list(node // base.Text)
    ctx.check([(n.pos, n.end) for n in texts] == positions, 'the positions are the same')
    ctx.check(ctx.And(*(n.head == d.text[p:e] for n, (p, e) in zip(texts, positions))), 'the texts')
    ctx.check([id(n) for n in node.descendants() if not isinstance(n, base.Text)] == [id(n) for n in others], 'nothing else changed')
    ctx.check(node.write() == d.text, 'written as the text')
    ctx.check(ctx.And(*(d.text[p:e] == t for p, e, t in node.edits(tree))), 'nothing to edit')


@harness('C27', bounds='no to three version commands in different places, the first of up to three numbers from 0 to 99; asked from every node')
def versions(ctx):
    """The version of a document is the first one in it, wherever it is asked."""
    places = [(9, 9) if ctx.flag('version%d' % i) else None for i in range(3)]
    first = next((i for i, v in enumerate(places) if v), None)
    want = ()
    if first is not None:
        want = places[first] = tuple(ctx.int('number%d' % i, 0, 99) for i in range(ctx.size('length', 0, 3)))
    make = lambda v: [lily.Version(lily.String(ctx.call('.'.join, [ctx.call(str, x) for x in v])))] if v is not None else []
    doc = lily.Document(*make(places[0]), lily.MusicList(lily.Note('c'), *make(places[1])), lily.Score(*make(places[2]), lily.Layout()))
    for n in [doc, *doc.descendants()]:
        got = util.lilypond_version(n)
        ctx.check(len(got) == len(want) and ctx.And(*(a == b for a, b in zip(got, want))), 'the version')
    ctx.check(doc.version == util.lilypond_version(doc), 'the version of the document')


def trees(ctx, depth, counter):
    """A list of elements, some comments."""
    nodes = []
    for i in range(ctx.size('size%d' % counter[0], 0, 3 if depth == 2 else 2)):
        counter[0] += 1
        kind = ctx.int('kind%d' % counter[0], 0, 3 if depth else 1)
        if kind == 0:
            nodes.append(lily.MultilineComment('x') if ctx.flag('multi%d' % counter[0]) else lily.SinglelineComment('y'))
        elif kind == 1:
            nodes.append(lily.Note('c'))
        else:
            counter[0] += 1
            cls = lily.Articulations if kind == 2 else lily.MusicList
            nodes.append(cls(*trees(ctx, depth - 1, counter)))
    return nodes


def last_comments(node):
    """The comments at the end."""
    found = []
    flat = []

    def walk(n):
        for c in n:
            flat.append(c)
            walk(c)
            if c.tail is not None:
                flat.append(None)
    walk(node)
    # an element without a tail ends with its children
    for c in reversed(flat):
        if isinstance(c, base.Comment):
            found.append(c)
        elif c is None or not isinstance(c, lily.Articulations) or not len(c):
            break
        elif not all(isinstance(x, base.Comment) for x in c):
            break
        else:
            # only comments were in it: they are popped, and this element is the last
            break
    found.reverse()
    return found


@harness('C27', bounds='trees of two levels of up to three elements, with comments, brackets and elements without brackets')
def comments_popped(ctx):
    """The comments at the end of an element are taken away in order, also from the last elements in it, but not from between brackets."""
    node = lily.MusicList(*trees(ctx, 2 if ctx.params.get('deep') else 1, [0]))
    want = last_comments(node)
    before = [n for n in node.descendants()]
    got = util.pop_comments(node)
    ctx.check([id(n) for n in got] == [id(n) for n in want], 'the comments at the end')
    ctx.check([id(n) for n in node.descendants()] == [id(n) for n in before if not any(n is c for c in want)], 'nothing else is taken')
    ctx.check([id(n) for n in util.skip_comments(node)] == [id(n) for n in node if not isinstance(n, base.Comment)], 'the others')
