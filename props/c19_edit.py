"""C19: edits of a document, a selection, a range or a node."""
import parce
import parce.document

from quickly.dom import edit, element
from quickly.node import Range
from vs.ctx import harness
from props.c18_positions import Plan, Token, E, B


class W(element.TextElement):
    """A text."""


class Doc(parce.document.AbstractDocument):
    """A document with a tree, that notes what is changed."""
    def __init__(self, plan, tokens, size):
        self._plan = plan
        self._size = size
        self.toks = tokens
        self.log = []
        self.pos = 0
        self.end = size

    def get_transform(self, wait=False):
        return self._plan.nodes[0]

    def builder(self):
        return self

    @property
    def root(self):
        return self

    def tokens(self):
        return iter(self.toks)

    def find_block(self, pos):
        return ('block', pos)

    def __bool__(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def __setitem__(self, key, text):
        self.log.append((key.start, key.stop, text))

    def text(self):
        return ''

    def _update_text(self, changes):
        pass

    def __len__(self):
        raise NotImplementedError


class Cursor(parce.Cursor):
    """A cursor of such a document."""
    def __init__(self, document, pos, end):
        self._document = document
        self.pos = pos
        self.end = end

    def document(self):
        return self._document

    def selection(self):
        return self.pos, self._document._size if self.end is None else self.end


class Texts(Plan):
    """The plan with writable texts for heads."""
    def _make(self, i):
        node = super()._make(i)
        if self.kinds[i] == 'H':
            node = W.with_origin(node.head_origin, (), *node.take())
            self.nodes[i] = node
        return node

    def _token(self):
        t = super()._token()
        t.text = 'text'
        self.__dict__.setdefault('tokens', []).append(t)
        return t


class Record(edit.Edit):
    """Notes what is in the range, and changes all texts in it."""
    def __init__(self, plan, modify=True):
        self.plan = plan
        self.modify = modify

    def edit_range(self, r):
        p = self.plan
        self.range = r
        self.doc = self.document()
        self.full = r.is_full()
        self.true = bool(r)
        self.inside = [n in r for n in p.nodes]
        self.touched = [bool(r & n) for n in p.nodes]
        nodes = list(r.descendants())
        self.nodes = [p.index(n) for n in nodes]
        self.ancestor = p.index(r.ancestor())
        self.blocks = [self.find_block(n) for n in p.nodes]
        if self.modify:
            for n in nodes:
                if isinstance(n, W):
                    n.head = 'new'
        return 'result'


def plan(ctx, n):
    p = Texts(ctx, ('E', 'H', 'B') if n < 4 else ('H', 'B'), n, gap=1, root=('E',) if n > 2 else None)
    return p, Doc(p, p.__dict__.get('tokens', []), p.at + ctx.int('last', 0, 2))


def compare(ctx, p, d, e, selected, outside, result):
    """What is in the range, and what has changed."""
    ctx.check(result == 'result', 'the result of edit_range')
    ctx.check(e.doc is d and e.document() is None, 'the document is available during the edit only')
    for i in range(1, p.s.n):
        if p.pos[i] is None:
            continue
        if i not in e.nodes or not e.inside[i]:
            ctx.check(ctx.Not(selected[i]), 'what is in the selection is in the range')
        if i in e.nodes or e.touched[i]:
            ctx.check(ctx.Not(outside[i]), 'what is outside the selection is not in the range')
        b = e.blocks[i]
        ctx.check(b is not None and b[1] == p.pos[i], 'the block of the node')
    if e.range_from_root:
        ctx.check(e.ancestor == 0, 'the ancestor of the range is the root')
    changed = [p.kinds[i] == 'H' and i in e.nodes for i in range(p.s.n)]
    want = [i for i in range(p.s.n) if changed[i] and not e.readonly]
    ctx.check(len(d.log) == len(want) and e.changes() == len(want), 'the number of changes')
    for i, (start, end, text) in zip(want, d.log):
        t = p.nodes[i].head_origin[0]
        ctx.check(ctx.And(start == t.pos, end == t.end, text == 'new'), 'the text is changed in its place')


@harness('C19', cases=[dict(n=n, root=r) for n in (1, 2, 3) for r in (False, True)] + [dict(n=4, root=False, deep=True)], thorough=[dict(n=n, root=r) for n in (1, 2, 3, 4) for r in (False, True)],
         bounds='all trees of up to three (thorough: four) elements of two or three kinds, and four in each other; any selection')
def edit_selection(ctx):
    """An edit of a selection is of what is selected, all of it, and nothing else."""
    p, d = plan(ctx, ctx.params['n'])
    a = ctx.int('pos', 0, 20)
    b = ctx.int('end', 0, 20)
    ctx.assume(ctx.And(a < b, b <= d._size))
    e = Record(p)
    e.range_from_root = ctx.params['root']
    c = Cursor(d, a, b)
    if p.s.n < 3 and ctx.flag('to the end'):
        ctx.assume(b == d._size)
        c.end = None
    selected = [x is not None and ctx.And(a <= x, y <= b) for x, y in zip(p.pos, p.end)]
    outside = [x is None or ctx.Or(y <= a, b <= x) for x, y in zip(p.pos, p.end)]
    compare(ctx, p, d, e, selected, outside, e.edit(c))
    ctx.observe('nodes', e.nodes)


@harness('C19', cases=[dict(n=n, here=h) for n in (1, 2, 3) for h in (False, True)], thorough=[dict(n=n, here=h) for n in (1, 2, 3, 4) for h in (False, True)],
         bounds='all trees of up to three (thorough: four) elements of two or three kinds, any position')
def edit_cursor(ctx):
    """Without selection, an edit is of everything, or of all from the cursor; read-only edits change no text."""
    p, d = plan(ctx, ctx.params['n'])
    a = ctx.int('pos', 0, 20)
    ctx.assume(a <= d._size)
    e = Record(p)
    e.range_from_cursor = ctx.params['here']
    e.readonly = ctx.flag('readonly')
    c = Cursor(d, a, a)
    if e.range_from_cursor:
        selected = [x is not None and a <= x for x in p.pos]
        outside = [x is None or y <= a for x, y in zip(p.pos, p.end)]
    else:
        selected = [x is not None for x in p.pos]
        outside = [False for x in p.pos]
    compare(ctx, p, d, e, selected, outside, e.edit(c))
    if not e.range_from_cursor:
        ctx.check(e.full and e.ancestor == 0, 'a full range')
    ctx.observe('nodes', e.nodes)


@harness('C19', cases=[dict(n=n) for n in (1, 2, 3)], bounds='all trees of up to three elements of three kinds')
def edit_tree(ctx):
    """An edit of a node is of all in it, an edit of a range of that very range; neither writes to a document; other types are an error."""
    p, d = plan(ctx, ctx.params['n'])
    e = Record(p)
    i = ctx.size('node', 0, p.s.n - 1)
    what = ctx.pick('what', ['node', 'range', 'other'])
    if what == 'node':
        ctx.check(e.edit(p.nodes[i]) == 'result', 'the result of edit_range')
        ctx.check(e.nodes == p.s.descendants(i) and e.ancestor == i and e.full, 'the whole node')
    elif what == 'range':
        r = p.nodes[0].range(p.nodes[i])
        ctx.check(e.edit(r) == 'result', 'the result of edit_range')
        ctx.check(e.range is r, 'the range itself')
    else:
        try:
            e.edit(ctx.pick('other', [None, 'text', 3]))
        except TypeError:
            ctx.observe('error', True)
            return
        ctx.check(False, 'other types are an error')
    ctx.check(e.doc is None and e.changes() == 0 and d.log == [], 'no text is changed')
    ctx.check(all(b is None for b in e.blocks), 'no blocks without document')
    ctx.observe('nodes', e.nodes)
