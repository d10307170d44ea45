"""C17: writing changes back to the text."""
from vs.ctx import harness
from props import tree_common as X
from props import write_common as W


class Token:
    def __init__(self, pos, text):
        self.pos = pos
        self.text = text
        self.end = pos + len(text)


class Context:
    def __init__(self, tokens):
        self._tokens = tokens
        self.pos = tokens[0].pos if tokens else 0
        self.end = tokens[-1].end if tokens else 0

    def tokens(self):
        return iter(self._tokens)


class Original:
    """The text: tokens with gaps of any length in between."""
    def __init__(self, ctx, total):
        self.ctx = ctx
        self.tokens = []
        self.gaps = []
        self.segments = []      # (start, end, index of the token or None)
        self.length = 0
        for i in range(total):
            self._gap(i)
            t = Token(self.length, 't%d' % i)
            self.tokens.append(t)
            self.segments.append((t.pos, t.end, i))
            self.length = t.end
        self._gap(total)
        self.context = Context(self.tokens)

    def _gap(self, i):
        g = self.ctx.int('gap%d' % i, 0, 3)
        self.gaps.append(g)
        self.segments.append((self.length, self.length + g, None))
        self.length = self.length + g

    def copy(self, a, b):
        """What is from a to b."""
        ctx = self.ctx
        for s, e, i in self.segments:
            lo = ctx.ite(a > s, a, s)
            hi = ctx.ite(b < e, b, e)
            n = hi - lo
            if i is None:
                yield 'gap', ctx.ite(n > 0, n, 0)
            elif n > 0:
                ctx.check(ctx.And(a <= s, e <= b), 'a token is changed as a whole')
                yield 'token', i

    def apply(self, edits):
        """The texts (of tokens by index), and before, between and after them the length of the gap that is left and inserted whitespace."""
        ctx = self.ctx
        pieces = []
        pos = 0
        for start, end, text in edits:
            ctx.check(ctx.And(pos <= start, start <= end, end <= self.length), 'changes are in order and do not overlap')
            pieces.extend(self.copy(pos, start))
            pieces.append(('text', text))
            pos = end
        pieces.extend(self.copy(pos, self.length))
        texts, between = [], [[0, '']]
        for kind, value in pieces:
            if kind == 'gap':
                between[-1][0] = between[-1][0] + value
            elif kind == 'token':
                texts.append(value)
                between.append([0, ''])
            else:
                words = value.split()
                between[-1][1] += value[:len(value) - len(value.lstrip())]
                for w in words:
                    texts.append(w)
                    between.append([0, ''])
                if words:
                    between[-1][1] += value[len(value.rstrip()):]
        return texts, between


class Document:
    """Notes the changes."""
    def __init__(self, context):
        self.root = context
        self.changes = []
        self.open = 0

    def builder(self):
        return self

    def __enter__(self):
        self.open += 1
        return self

    def __exit__(self, *args):
        self.open -= 1

    def __setitem__(self, key, text):
        self.changes.append((key.start, key.stop, text, self.open))


class Plan:
    """A DOM of the tokens, the changes made to it, and the texts there should be."""
    def __init__(self, ctx, s, kinds, states, spaces):
        self.s, self.kinds, self.states = s, kinds, states
        self.count = 0
        self.head = [()] * s.n
        self.tail = [()] * s.n
        self._number(0)
        self.original = Original(ctx, self.count)
        self.nodes = [None] * s.n
        self.root = self._make(0, spaces)
        self.texts = []         # index of a token, or a new text
        self.touched = []       # whether that text is new or modified
        self._change(0, spaces)
        self.removed = [i for i in range(self.count) if i not in self.texts and i not in self.gone]

    def _take(self, n):
        self.count += n
        return tuple(range(self.count - n, self.count))

    def _number(self, i):
        old = self.states[i] != 'new'
        k = self.kinds[i]
        if old:
            self.head[i] = self._take({'E': 0, 'W': 1, 'W2': 2, 'B': 1}[k])
        for c in self.s.kids[i]:
            self._number(c)
        if old and k == 'B':
            self.tail[i] = self._take(1)

    def _tokens(self, indices):
        return tuple(self.original.tokens[j] for j in indices)

    def _make(self, i, spaces):
        kids = [self._make(c, spaces) for c in self.s.kids[i] if self.states[c] != 'new']
        cls = {'E': W.E, 'B': W.B}.get(self.kinds[i], W.W)
        if self.head[i]:
            node = cls.with_origin(self._tokens(self.head[i]), self._tokens(self.tail[i]), *kids)
        elif cls is W.W:
            node = cls('n%d' % i, *kids)
        else:
            node = cls(*kids)
        for name, value in spaces.items():
            setattr(node, name, value)
        self.nodes[i] = node
        return node

    def _change(self, i, spaces):
        """Make the changes to the node and what is in it, and note the texts."""
        if not i:
            self.gone = set()
        node = self.nodes[i]
        state = self.states[i]
        if state == 'modify':
            node.head = 'm%d' % i
            self.gone.update(self.head[i])
            self._text('m%d' % i, True)
        elif self.kinds[i] == 'B' and state == 'new':
            self._text('<', True)
        elif state == 'new':
            self._text('n%d' % i, True)
        else:
            for j in self.head[i]:
                self._text(j, False)
        place = 0
        for c in self.s.kids[i]:
            if self.states[c] == 'remove':
                del node[place]
                continue
            if self.states[c] == 'replace':
                new = W.W('r%d' % c)
                for name, value in spaces.items():
                    setattr(new, name, value)
                node[place] = new
                self._text('r%d' % c, True)
            else:
                if self.states[c] == 'new':
                    node.insert(place, self._make(c, spaces))
                self._change(c, spaces)
            place += 1
        if self.kinds[i] == 'B':
            if state == 'new':
                self._text('>', True)
            else:
                self._text(self.tail[i][0], False)

    def _text(self, text, touched):
        self.texts.append(text)
        self.touched.append(touched)


SPACES = {
    'none': {},
    'line': dict(space_between=' ', space_after_head=' ', space_before_tail=' '),
    'block': dict(space_before='\n', space_after='\n\n'),
}


def plan(ctx, states=('keep', 'modify', 'remove', 'replace', 'new'), kinds=('W', 'W2', 'B')):
    s = X.shape(ctx, ctx.params['n'])
    kind, state = ['E'], ['keep']
    for i in range(1, s.n):
        k = ctx.pick('kind%d' % i, kinds)
        parent = state[s.parent[i]]
        if parent in ('remove', 'replace'):
            st = 'keep'
        elif parent == 'new':
            st = 'new'
        else:
            st = ctx.pick('state%d' % i, [x for x in states if x != 'modify' or k != 'B'])
        if st == 'new' and k == 'W2':
            ctx.assume(False)
        kind.append(k)
        state.append(st)
    return Plan(ctx, s, kind, state, SPACES[ctx.params['spaces']])


def lead(ws):
    return ws.count('\n'), ws.count(' ')


@harness('C17', cases=[dict(n=n, spaces=w) for n in (1, 2, 3) for w in SPACES], thorough=[dict(n=n, spaces=w) for n in (1, 2, 3, 4) for w in SPACES],
         bounds='all trees of up to three (thorough: four) elements in three kinds and five states, every gap of 0 to 3 between the tokens, three sets of whitespace preferences')
def edits_write_back(ctx):
    """The changes give the text of the DOM, with all text that is not modified as it was."""
    p = plan(ctx)
    o = p.original
    edits = list(p.root.edits(o.context))
    doc = Document(o.context)
    ctx.check(p.root.edit(doc) == len(edits), 'edit() returns the number of changes')
    ctx.check(len(doc.changes) == len(edits), 'edit() makes all changes')
    for change, e in zip(doc.changes, edits):
        ctx.check(ctx.And(change[0] == e[0], change[1] == e[1], change[2] == e[2], change[3] == 1), 'edit() makes the changes, at once')
    if not p.removed and not any(p.touched):
        ctx.check(edits == [], 'without modifications there are no changes')
    texts, between = o.apply(edits)
    ctx.check(texts == p.texts, 'the texts of the DOM in order')
    gaps = W.texts_and_gaps(p.root)[1]
    # the texts of the DOM have one demand per text, tokens of one text have none
    demands = []
    k = 0
    prev = None
    for t in p.texts:
        if isinstance(t, int) and isinstance(prev, int) and t == prev + 1 and any(h == (prev, t) for h in p.head):
            demands.append(None)
        else:
            demands.append(gaps[k])
            k += 1
        prev = t
    for k, t in enumerate(p.texts):
        gap, ws = between[k]
        before = p.texts[k-1] if k else -1
        same = isinstance(t, int) and isinstance(before, int)
        if same and t == before + 1:
            ctx.check(ctx.And(ws == '', gap == o.gaps[t]), 'whitespace between text that is not modified is as it was')
        elif k and demands[k] is not None:
            strongest = max([lead(d) for d in demands[k]])
            if strongest > (0, 0):
                ctx.check(ctx.Or(gap > 0, lead(ws) >= strongest), 'the whitespace that is wanted is there')
    if p.texts and p.texts[-1] == p.count - 1:
        ctx.check(ctx.And(between[-1][1] == '', between[-1][0] == o.gaps[-1]), 'whitespace at the end is as it was')
    ctx.observe('edits', edits)


@harness('C17', cases=[dict(n=n, spaces=w) for n in (2, 3) for w in ('line', 'block')], thorough=[dict(n=n, spaces=w) for n in (2, 3, 4) for w in SPACES],
         bounds='all trees of up to three (thorough: four) elements, every gap of 0 to 3 between the tokens, every range that has whole tokens')
def edits_range(ctx):
    """No text outside the range is deleted, while all that is modified is written."""
    p = plan(ctx, kinds=('W', 'B'))
    o = p.original
    start = ctx.int('start', 0, 40)
    end = ctx.int('end', 0, 40)
    ctx.assume(ctx.And(start <= end, end <= o.length))
    for t in o.tokens:
        ctx.assume(ctx.And(ctx.Or(start <= t.pos, start >= t.end), ctx.Or(end <= t.pos, end >= t.end)))
    edits = list(p.root.edits(o.context, start, end))
    texts, between = o.apply(edits)
    for j in p.removed:
        t = o.tokens[j]
        inside = ctx.And(start <= t.pos, t.end <= end)
        ctx.check(ctx.Not(inside) if j in texts else inside, 'what is removed from the DOM is deleted from the range and nowhere else')
    ctx.check([t for t in texts if t not in p.removed] == p.texts, 'the texts of the DOM in order')
    kept = [j for j in texts if isinstance(j, int)]
    ctx.check(kept == sorted(kept), 'the tokens are in order')
    for k in range(1, len(texts)):
        a, b = texts[k-1], texts[k]
        if isinstance(a, int) and isinstance(b, int):
            gap, ws = between[k]
            ctx.check(ctx.Or(start > o.tokens[a].end, ws == '', gap == 0), 'no whitespace is added to whitespace that stays')
    ctx.observe('edits', edits)


@harness('C17', cases=[dict(n=n, spaces='line') for n in (2, 3)], thorough=[dict(n=n, spaces=w) for n in (2, 3, 4) for w in ('line', 'block')],
         bounds='all trees of up to three (thorough: four) elements, every gap of 0 to 3')
def edits_part(ctx):
    """The changes of one element, in the range of its text, leave the rest alone."""
    p = plan(ctx, kinds=('W', 'B'))
    o = p.original
    i = ctx.size('part', 1, p.s.n - 1)
    ctx.assume(p.states[i] in ('keep', 'modify'))
    ctx.assume(all(p.states[a] not in ('remove', 'replace') for a in p.s.ancestors(i)))
    node = p.nodes[i]
    span = sorted(j for k in [i] + p.s.descendants(i) for j in p.head[k] + p.tail[k])
    first, last = span[0], span[-1]
    edits = list(node.edits(o.context, o.tokens[first].pos, o.tokens[last].end))
    texts, between = o.apply(edits)
    outside = [j for j in range(p.count) if j < first or j > last]
    ctx.check([t for t in texts if isinstance(t, int) and t in outside] == outside, 'text outside the element is as it was')
    # what is in the element is as in the texts of the whole DOM
    names = {'%s%d' % (x, k) for x in 'mnr' for k in [i] + p.s.descendants(i)}
    mine = [t for t in p.texts if (t in span if isinstance(t, int) else t in names or t in '<>')]
    got = [t for t in texts if t not in outside]
    if '<' not in mine:
        ctx.check(got == mine, 'the texts of the element in order')
    ctx.observe('edits', edits)
