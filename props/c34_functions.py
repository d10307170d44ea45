"""C34: what the functions do with a document, a cursor, a range and a node."""
import weakref
from fractions import Fraction

import parce
import parce.document

from quickly import relative, rhythm, transpose
from quickly.dom import lily, read
from quickly.lang.lilypond import LilyPond
from quickly.node import Range
from quickly.pitch import Pitch
from vs.ctx import harness
from props import read_common as R

F = Fraction


class Document(parce.document.AbstractDocument):
    """A document with a text that may be symbolic."""
    def __init__(self, d):
        self._cursors = weakref.WeakSet()
        self.d = d
        self.tree, self.transformer, self.dom = R.read_tree(LilyPond.root, d.text, d.sample)
        self.changed = []

    def get_transform(self, wait=False):
        return self.dom

    def builder(self):
        return self

    @property
    def root(self):
        return self.tree

    def find_block(self, pos):
        return self.d.sample.count('\n', 0, pos)

    def __bool__(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def __setitem__(self, key, text):
        self.changed.append((key.start, key.stop, text))

    def __len__(self):
        return len(self.d.sample)

    def text(self):
        """The text with the changes."""
        pieces, pos = [], 0
        for start, end, text in self.changed:
            pieces += [self.d.text[pos:start], text]
            pos = end
        pieces.append(self.d.text[pos:])
        text = ''
        for p in pieces:
            text = text + p
        return text

    def _update_text(self, changes):
        pass


# texts; # is a duration, @ a note name and ! an octave
TEXTS = {
    'notes': '{ @4 %{x%} @!# r2 <c @!>#.\n s1 }',
    'bare': '{ @#( @ r) e# %{x%} } \\addlyrics { a1 b }',
    'relative': '\\relative c! { @# @ <@ g> \\tuplet 3/2 { a } }',
    'assignments': 'm = { @!#*2/3 ~ @ }\n% text\n\\score { \\new Staff << \\m { @ c# } >> \\layout { } }',
    'scaled': '{ @#*1/2\n @4*3 r#*2 \\skip 4 g }',
    'chords': '{ <@ e>#-. <g @!>\\( q \\) %{x%} }',
    'lines': '{ @# d# %x\n e# @ %y\n\n f# }',
}

OPS = {
    'transpose': lambda m: transpose.transpose(m, transpose.Transposer(Pitch(0, 0, 0), Pitch(0, 2, -.5))),
    'up': lambda m: transpose.transpose(m, transpose.Transposer(Pitch(0, 1, 0), Pitch(1, 3, .5))),
    'rel2abs': relative.rel2abs,
    'abs2rel': relative.abs2rel,
    'remove': rhythm.remove,
    'remove_scaling': rhythm.remove_scaling,
    'remove_fraction_scaling': rhythm.remove_fraction_scaling,
    'explicit': rhythm.explicit,
    'implicit': rhythm.implicit,
    'transform': lambda m: rhythm.transform(m, 1, 1, F(2, 3)),
    'copy': rhythm.copy,
    'copy_explicit': lambda m: rhythm.copy(m, True),
    'paste': lambda m: rhythm.paste(m, [(F(1, 8), 1), None, (F(3, 8), F(2, 3))]),
    'paste_once': lambda m: rhythm.paste(m, [(F(1, 8), 1), (F(1, 2), 2)], False),
}

PITCHES = ('transpose', 'up', 'rel2abs', 'abs2rel')


def build(ctx, template, pitches):
    """The text: names and octaves are symbolic for functions that change pitches, durations for others."""
    d = R.Doc(ctx)
    n = 0
    for c in template:
        if c == '#':
            n += 1
            d.word('248' if n < 2 else '24') if not pitches else d('4')
        elif c == '@':
            d.word('cg' if n else 'cfb') if pitches else d('a')
        elif c == '!':
            d.word("',") if pitches else d("'")
        else:
            d(c)
    return d


def same_value(a, b):
    """Whether two results (None, or lists of durations) are the same."""
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))
    return a is None and b is None


@harness('C34', cases=[dict(text=t) for t in ('notes', 'bare', 'relative', 'assignments')], thorough=[dict(text=t) for t in ('scaled', 'chords', 'lines')],
         bounds='14 functions, seven texts (quick: four), with symbolic note names and octaves, or durations')
def functions_document(ctx):
    """Given a document or a cursor, every function changes the text to what it changes the music to, given as a node or a range."""
    op = ctx.pick('function', tuple(OPS))
    d = build(ctx, TEXTS[ctx.params['text']], op in PITCHES)
    f = OPS[op]
    doc = Document(d)
    what = ctx.pick('given', ('document', 'cursor'))
    music = doc if what == 'document' else parce.Cursor(doc, 5)
    one = ctx.call(lambda: f(music))
    node = R.read_text(read.lily_document, d.text, d.sample)
    given = Range(node) if what == 'document' else node
    two = ctx.call(lambda: f(given))
    ctx.check(same_value(one, two), 'the result')
    text = doc.text()
    ctx.observe('text', text)
    ctx.check(R.same_text(ctx, text, node.write()), 'the text of the document is that of the music')
    ctx.check(R.same_all(ctx, doc.dom, node), 'the elements')
    if op.startswith('copy'):
        ctx.check(not doc.changed, 'nothing is changed')
    again = R.resample(text, d.text, d.sample) if ctx.symbolic else text
    if again is not None:
        ctx.check(R.same_all(ctx, R.read_text(read.lily_document, text, again), node), 'the text that is read again is the music')


@harness('C34', cases=[dict(text=t) for t in ('notes', 'relative', 'assignments')], thorough=[dict(text=t) for t in ('bare', 'scaled', 'chords', 'lines')],
         bounds='14 functions, seven texts (quick: three), every selection')
def functions_selection(ctx):
    """Given a selection, every function changes nothing outside it."""
    op = ctx.pick('function', tuple(OPS))
    d = R.Doc(ctx)
    d(TEXTS[ctx.params['text']].replace('#', '4').replace('@', 'a').replace('!', "'"))
    doc = Document(d)
    pos = ctx.int('start', 0, len(d.sample))
    end = ctx.int('end', 0, len(d.sample))
    ctx.assume(pos < end)
    t = d.sample
    chords = [(n.pos, n.end) for n in doc.dom.descendants() if isinstance(n, lily.ChordBody)]
    inside = [i for a, b in chords for i in range(a + 1, b)]
    ctx.assume(ctx.isin(pos, [i for i in range(len(t)) if (not i or t[i-1].isspace()) and i not in inside]))
    ctx.assume(ctx.isin(end, [i for i in range(len(t) + 1) if (i == len(t) or t[i].isspace()) and i not in inside]))
    # the range of an expression starts where its first element starts
    lists = [(n.pos, n.end, n[0].pos if len(n) else n.pos) for n in doc.dom.descendants() if isinstance(n, lily.Relative if op == 'rel2abs' else lily.MusicList)]
    relative = [(n.pos, n.end) for n in doc.dom.descendants() if isinstance(n, lily.Relative)]
    cursor = parce.Cursor(doc, 0, 1)
    cursor.pos, cursor.end = pos, end
    ctx.call(lambda: OPS[op](cursor))
    ctx.observe('changed', doc.changed)
    for a, b, text in doc.changed:
        if op in ('rel2abs', 'abs2rel'):
            ctx.check(ctx.Or(*[ctx.And(pos <= first, s < end, len(t[:s].rstrip()) <= a, b <= e) for s, e, first in lists]), 'the change is in an expression that starts in the selection')
            if op == 'abs2rel':
                ctx.check(ctx.And(*[ctx.Or(b <= s, a >= e) for s, e in relative]), 'what is relative is not changed')
        else:
            ctx.check(ctx.And(pos <= a, b <= end), 'the change is in the selection')
