"""C29: the musical time at the cursor and of a selection."""
from fractions import Fraction

from quickly.dom import lily
from quickly.lang.lilypond import LilyPond
from quickly.time import Time
from vs.ctx import harness
from props import read_common as R

F = Fraction

# texts; # is a duration with a symbolic number
TEXTS = {
    'flat': '{ c# d#. e <f g># a }',
    'nested': '{ c# { d# e } f# }',
    'simultaneous': '{ << { c# d# } { e# } >> f }',
    'tuplet': '{ c# \\tuplet 3/2 { d# e } f }',
    'two': '{ c# d# } { e# f }',
    'relative': 'm = \\relative { c# \\times 2/3 { d# } e }',
    'staffs': '<< \\new Staff { c# d } \\new Staff { r# { } s#. } >>',
    'comments': '{ c# %{x%} d#-.( | e# %{y%} }',
    'empty': '{ { } c# { d# { } } << >> }',
    'chords': '{ <c e># <d f> g#~ g q }',
    'deep': '{ \\tuplet 3/2 { c# \\tuplet 5/4 { d# e } } f# }',
    'grace': '{ c# \\grace { d# e } f# << { g } e# >> }',
    'tags': "{ c# \\tag #'x { d# e } f~-\\tag_\"x\"_( g# }",
    'figures': '\\figuremode { <6># <5> <7># }',
    'repeat': '{ c# \\repeat unfold 3 { d# e } f# }',
}


class Item:
    """A piece of music in the text; time is how long it lasts outside, scale is the number to multiply lengths inside with."""
    def __init__(self, kind, start, parent=None):
        self.kind, self.start, self.end, self.parent = kind, start, None, parent
        self.items = []
        self.factor = F(1)
        self.head = None        # where the braces open
        self.length = 0
        self.count = 1

    def scale(self):
        n, p = F(1), self
        while p:
            n *= p.factor
            p = p.parent
        return n


class Music:
    """A text with what there is in it."""
    def __init__(self, ctx, template):
        self.ctx = ctx
        self.d = d = R.Doc(ctx)
        self.tops = []
        self.items = []
        self.lists = []
        self.grace = 0
        previous = F(1, 4)
        stack = []
        factor, count, start, kind = F(1), 1, None, None
        words = template.split(' ')
        i = 0
        while i < len(words):
            w = words[i]
            if i:
                d(' ')
            at = len(d.sample)
            if w in ('{', '<<'):
                item = self._add(stack, w, at if start is None else start)
                item.factor, item.count, item.grace = factor, count, kind == 'grace'
                item.head = at + len(w)
                self.lists.append(item)
                factor, count, start, kind = F(1), 1, None, None
                stack.append(item)
                d(w)
            elif w in ('}', '>>'):
                item = stack.pop()
                item.tail = at
                item.end = at + len(w)
                d(w)
            elif w in ('\\tuplet', '\\times'):
                d(w + ' ' + words[i+1])
                factor = F(*map(int, words[i+1].split('/')))
                if w == '\\tuplet':
                    factor = 1 / factor
                start = at
                i += 1
            elif w == '\\repeat':
                d(w + ' ' + words[i+1] + ' ' + words[i+2])
                count = 1       # the music is there once
                start = at
                i += 2
            elif w in ('\\relative', '\\grace', '\\figuremode'):
                d(w)
                start, kind = at, w[1:]
            elif w in ('\\new', '\\tag'):
                d(w + ' ' + words[i+1])
                start = at
                i += 1
            elif w in ('m', '=', '|', '(', '%{x%}', '%{y%}'):
                d(w)
            else:
                item = self._add(stack, 'note', at)
                w = w.replace('_', ' ')
                if w.startswith('<') and '>' not in w:
                    d(w + ' ')
                    i += 1
                    w = words[i]
                name, has, rest = w.partition('#')
                d(name)
                if has:
                    n = d.word('248' if len(self.items) < 2 else '24')
                    previous = ctx.ite(n == '2', F(1, 2), ctx.ite(n == '4', F(1, 4), F(1, 8)))
                    if rest.startswith('.'):
                        previous = previous * F(3, 2)
                    d(rest)
                item.length = previous
                item.end = len(d.sample)
            i += 1
        self.size = len(d.sample)
        for t in self.tops:
            self._measure(t)

    def _add(self, stack, kind, at):
        parent = stack[-1] if stack else None
        item = Item(kind, at, parent)
        (parent.items if parent else self.tops).append(item)
        self.items.append(item)
        return item

    def _measure(self, item):
        """The length, for what is outside; the lengths of notes are changed to what they are."""
        if item.kind == 'note':
            item.length = item.length * item.scale()
            if item.parent and self._in_grace(item):
                item.length = 0
            return
        n = 0
        for i in item.items:
            self._measure(i)
            if item.kind == '{':
                n = n + i.length
            else:
                n = self.ctx.ite(i.length > n, i.length, n)
        item.once = n
        item.length = n * item.count

    def _in_grace(self, item):
        while item:
            if getattr(item, 'grace', False):
                return True
            item = item.parent

    def before(self, item):
        """The time from the start of the topmost music."""
        n = 0
        while item.parent:
            p = item.parent
            if p.kind == '{':
                for i in p.items:
                    if i is item:
                        break
                    n = n + i.length
            item = p
        return n

    def top(self, item):
        while item.parent:
            item = item.parent
        return item

    def read(self):
        self.tree, self.transformer, self.got = R.read_tree(LilyPond.root, self.d.text, self.d.sample)
        return self.got


class Document:
    def __init__(self, dom):
        self.dom = dom

    def get_transform(self, wait=False):
        return self.dom


class Cursor:
    def __init__(self, dom, pos, end=None):
        self._document = Document(dom)
        self.pos, self.end = pos, end

    def document(self):
        return self._document

    def has_selection(self):
        return self.end is not None and self.pos != self.end

    def selection(self):
        return self.pos, self.end


QUICK = ['flat', 'nested', 'simultaneous', 'tuplet', 'two', 'relative', 'comments', 'empty', 'tags', 'figures']


@harness('C29', cases=[dict(text=t) for t in QUICK], thorough=[dict(text=t) for t in TEXTS if t not in QUICK],
         bounds='15 texts with lists, simultaneous music, tuplets, chords, figures, staffs, tags, repeats, grace notes and comments (quick: 10 of them), all places '
         'in a list that are not inside a note or a command; every duration is a half, quarter (or eighth) note')
def cursor_place(ctx):
    """The time at a cursor in a list is what lasts what is before it there, and the time before the list."""
    m = Music(ctx, TEXTS[ctx.params['text']])
    dom = m.read()
    pos = ctx.int('cursor', 0, m.size)
    result = ctx.call(lambda: Time().cursor_position(Cursor(dom, pos)))
    ctx.observe('time', None if result is None else result.time)
    inside = None
    for item in m.lists:
        if ctx.And(item.head <= pos, pos <= item.tail):
            inside = item
    if inside is None:
        return
    for i in inside.items:
        ctx.assume(ctx.Not(ctx.And(i.start < pos, pos < (i.head if i.head else i.end))))
        if i.kind != 'note':
            ctx.assume(ctx.Not(ctx.And(i.tail < pos, pos < i.end)))
    following = None
    for i in inside.items:
        if pos <= i.start:
            following = i
            break
    if following:
        want = m.before(following)
    else:
        want = m.before(inside) + (inside.once if inside.count > 1 else inside.length)
    ctx.check(result is not None, 'the cursor is in music')
    ctx.check(result.time == want, 'the time at the cursor')
    top = m.top(inside)
    ctx.check(result.node.parent is dom or result.node.parent.parent is dom, 'the topmost music')
    ctx.check(result.node.pos == top.start, 'the music the cursor is in')


@harness('C29', cases=[dict(text=t) for t in QUICK], thorough=[dict(text=t) for t in TEXTS if t not in QUICK],
         bounds='the same texts, all selections that begin and end in the same list between what is there')
def cursor_selection(ctx):
    """The time of a selection in a list is the sum (or, of simultaneous music, what it lasts) of what is selected."""
    m = Music(ctx, TEXTS[ctx.params['text']])
    dom = m.read()
    pos = ctx.int('start', 0, m.size)
    end = ctx.int('end', 0, m.size)
    ctx.assume(pos < end)
    inside = ctx.pick('list', tuple(range(len(m.lists))))
    inside = m.lists[inside]
    ctx.assume(inside.kind == '{' or len(inside.items) == 1)
    for p in (pos, end):
        ctx.assume(ctx.And(inside.head <= p, p <= inside.tail))
        for i in inside.items:
            ctx.assume(ctx.Not(ctx.And(i.start < p, p < i.end)))
    result = ctx.call(lambda: Time().cursor_duration(Cursor(dom, pos, end)))
    ctx.observe('time', None if result is None else result.time)
    selected = [i for i in inside.items if pos <= i.start and i.end <= end]
    if not selected:
        ctx.check(result is None or result.time == 0, 'nothing is selected')
        return
    want = 0
    for i in selected:
        want = want + i.length
    ctx.check(result is not None, 'the selection is in music')
    ctx.check(result.time == want, 'the time of the selection')
    ctx.check(result.node.pos == m.top(inside).start, 'the music the selection is in')


@harness('C29', cases=[dict(text=t) for t in ('two', 'flat', 'empty')],
         bounds='three texts, all selections')
def cursor_any(ctx):
    """Without a selection there is no time of a selection, and whatever is selected, it does not last less than 0 or more than the music."""
    m = Music(ctx, TEXTS[ctx.params['text']])
    dom = m.read()
    pos = ctx.int('start', 0, m.size)
    end = ctx.int('end', 0, m.size)
    ctx.assume(pos <= end)
    result = ctx.call(lambda: Time().cursor_duration(Cursor(dom, pos, end)))
    ctx.observe('time', None if result is None else result.time)
    if pos == end:
        ctx.check(result is None, 'there is no selection')
    elif result is not None:
        tops = [t for t in m.tops if result.node.pos == t.start]
        ctx.check(len(tops) == 1, 'the music')
        ctx.check(ctx.And(0 <= result.time, result.time <= tops[0].length), 'the time')
        ctx.check(ctx.And(pos < tops[0].end, end > tops[0].start), 'the music that is in the selection')
