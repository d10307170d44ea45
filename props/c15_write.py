"""C15: writing out elements."""
from quickly.dom import base, element, util
from vs.ctx import harness
from props import tree_common as X
from props import write_common as W

KINDS = [W.E, W.H, W.B, W.W, W.D]


def strength(ctx, ws):
    return ctx.call(ws.count, '\n'), ctx.call(ws.count, ' ')


def at_least(ctx, a, b):
    """Whether whitespace strength a is b or stronger."""
    return ctx.Or(a[0] > b[0], ctx.And(a[0] == b[0], a[1] >= b[1]))


def is_strongest(ctx, ws, demands):
    """ws is one of the demands, and none is stronger."""
    return ctx.And(ctx.Or(*[ws == d for d in demands]) if demands else ws == '',
                   *[at_least(ctx, strength(ctx, ws), strength(ctx, d)) for d in demands])


def element_tree(ctx, kinds=KINDS, empty=True):
    s = X.shape(ctx, ctx.params['n'])
    nodes = []
    for i in range(s.n):
        fixed = {0: 'root', 1: 'child'}.get(i)
        k = kinds[ctx.params[fixed]] if fixed in ctx.params else ctx.pick('kind%d' % i, kinds)
        leaf = not s.kids[i]
        if k is W.W:
            text = '' if empty and leaf and ctx.flag('empty%d' % i) else 'w%d' % i
            nodes.append(W.W(text))
        else:
            nodes.append(k())
    for i in range(1, s.n):
        nodes[s.parent[i]].append(nodes[i])
    return s, nodes


@harness('C15', cases=[dict(n=n, root=k) for n in (1, 2, 3) for k in range(5)],
         thorough=[dict(n=n, root=k) for n in (1, 2, 3) for k in range(5)] +
                  [dict(n=4, root=k, child=c) for k in range(5) for c in range(5)],
         bounds='all trees of up to three (thorough: four) elements of five kinds, all whitespace preferences of two characters of newline, space and tab')
def write_whitespace(ctx):
    """All texts are written in order, with the strongest whitespace wanted in between."""
    s, nodes = element_tree(ctx)
    for i, n in enumerate(nodes):
        for w in W.SPACES:
            if type(n) is W.D and w == 'between':
                continue
            setattr(n, 'space_' + w, ctx.text('%s%d' % (w, i), '\n \t', 2))
    texts, gaps = W.texts_and_gaps(nodes[0])
    out = nodes[0].write()
    pos = 0
    sizes = []
    for k, t in enumerate(texts):
        if k:
            end = pos + (2 if gaps[k] else 0)
            ctx.check(is_strongest(ctx, out[pos:end], gaps[k]), 'the strongest whitespace is between two texts')
            pos = end
        ctx.check(out[pos:pos+len(t)] == t, 'all texts are written in order')
        pos += len(t)
    ctx.check(len(out) == pos, 'nothing else is written')
    points = list(nodes[0].points())
    if all(len(n.head or '') if isinstance(n, W.W) else 1 for n in nodes):
        ctx.check([p.text() for p in points] == texts, 'the points have all texts')
        ctx.check(all(p.pos is None and p.end is None and not p.modified for p in points), 'points of new elements')
    if texts:
        ctx.check(is_strongest(ctx, points[0].space_before, gaps[0]) if not texts or points[0].text() else True, 'whitespace before the first text')
        ctx.check(is_strongest(ctx, points[-1].space_after, gaps[-1]) if points[-1].text() else True, 'whitespace after the last text')
    ctx.observe('out', out)


@harness('C15', cases=[dict(n=n) for n in (0, 1, 2, 3, 4)], thorough=[dict(n=n) for n in (0, 1, 2, 3, 4, 5)],
         bounds='up to four (thorough: five) fragments, each text empty or not, all whitespace of two characters')
def write_combine_text(ctx):
    """Fragments are concatenated with the strongest whitespace, also over empty texts."""
    n = ctx.params['n']
    frags = []
    gaps, texts = [[]], []
    for i in range(n):
        b, a = ctx.text('before%d' % i, '\n \t', 2), ctx.text('after%d' % i, '\n \t', 2)
        t = '' if ctx.flag('empty%d' % i) else 't%d' % i
        frags.append((b, t, a))
        gaps[-1].append(b)
        if t:
            texts.append(t)
            gaps.append([])
        gaps[-1].append(a)
    before, text, after = util.combine_text(frags)
    pos = 0
    for k, t in enumerate(texts):
        if k:
            ctx.check(is_strongest(ctx, text[pos:pos+2], gaps[k]), 'the strongest whitespace is between two texts')
            pos += 2
        ctx.check(text[pos:pos+2] == t, 'the text')
        pos += 2
    ctx.check(len(text) == pos, 'nothing else is in the text')
    if texts:
        ctx.check(is_strongest(ctx, before, gaps[0]), 'whitespace before')
        ctx.check(is_strongest(ctx, after, gaps[-1]), 'whitespace after')
    else:
        ctx.check(text == '' and before == '', 'no text')
        ctx.check(is_strongest(ctx, after, gaps[0]), 'all whitespace is after the text that is not there')
    ctx.observe('text', [before, text, after])


@harness('C15', cases=[dict(n=n) for n in (0, 1, 2, 3, 4)] + [dict(n=2, size=4)], thorough=[dict(n=3, size=4), dict(n=2, size=5)],
         bounds='up to four pieces of whitespace of up to two characters (or two of up to four, thorough: three) of newline, space and tab')
def write_collapse(ctx):
    """The most important whitespace has the most newlines, and then the most spaces."""
    ws = []
    for i in range(ctx.params['n']):
        ws.append(ctx.text('ws%d' % i, '\n \t', ctx.size('len%d' % i, 0, ctx.params.get('size', 2))))
    r = util.collapse_whitespace(iter(ws))
    ctx.check(is_strongest(ctx, r, ws), 'the strongest whitespace')
    for w in ws:
        k = util.whitespace_key(w)
        ctx.check(ctx.And(k[0] == ctx.call(w.count, '\n'), k[1] == ctx.call(w.count, ' ')), 'key')
    ctx.observe('r', r)


@harness('C15', cases=[dict(set=w) for w in W.SPACES], bounds='all whitespace of one character for each of the five preferences, any of them set')
def write_preferences(ctx):
    """A preference that is set is that of this element only, and is kept in copies; deleting it gets the default of the class back."""
    class P(element.TextElement):
        space_before = '\n'
        space_after_head = ' '
        space_between = ' '
        space_before_tail = ''
        space_after = '\n'
    default = dict(before='\n', after_head=' ', between=' ', before_tail='', after='\n')
    node, other = P('text'), P('other')
    want = dict(default)
    also = ctx.pick('also', [w for w in W.SPACES if w != ctx.params['set']])
    for w in (ctx.params['set'], also):
        want[w] = v = ctx.text('space_' + w, '\n \t', ctx.size('len_' + w, 0, 1))
        setattr(node, 'space_' + w, v)
        # and change it again
        if ctx.flag('again_' + w):
            want[w] = v = ctx.text('second_' + w, '\n \t', 1)
            setattr(node, 'space_' + w, v)
    copies = [node, node.copy(), node.copy_with_origin(), P('text', **{'space_' + w: want[w] for w in W.SPACES})]
    for n in copies:
        for w in W.SPACES:
            ctx.check(getattr(n, 'space_' + w) == want[w], 'the preference is as set')
    for w in W.SPACES:
        ctx.check(getattr(other, 'space_' + w) == default[w], 'other elements have the default')
        delattr(node, 'space_' + w)
        ctx.check(getattr(node, 'space_' + w) == default[w], 'the default is back')
        ctx.check(copies[1].space_after == want['after'], 'a copy has its own preferences')


LAYOUT = [base.Newline, base.BlankLine, base.Line, base.Column, base.Text, base.SinglelineComment]


@harness('C15', cases=[dict(n=n) for n in (2, 3)], thorough=[dict(n=n) for n in (2, 3, 4)],
         bounds='all documents of up to three (thorough: four) of Newline, BlankLine, Line, Column, Text and SinglelineComment elements')
def write_layout(ctx):
    """Newline, BlankLine, Line and Column lay out the texts of a document as they say."""
    n = ctx.params['n']
    doc = base.Document(space_between=' ')
    # for every text: newlines wanted before and after
    items = []      # ('text', t) or ('newlines', n)
    for i in range(n):
        k = ctx.pick('item%d' % i, LAYOUT)
        if i:
            prev = type(doc[-1])
            items.append(('nl', 1 if prev in (base.SinglelineComment, base.Newline) else 0))
        if k in (base.Newline, base.BlankLine):
            doc.append(k())
            items.append(('nl', 1 if k is base.Newline else 2))
        elif k in (base.Line, base.Column):
            doc.append(k(base.Text('x%d' % i), base.Text('y%d' % i)))
            items += [('nl', 1), ('t', 'x%d' % i), ('nl', 1 if k is base.Column else 0), ('t', 'y%d' % i), ('nl', 1)]
        else:
            doc.append(k('t%d' % i))
            items.append(('t', 't%d' % i))
    want, cur = [], None
    for a, b in items:
        if a == 't':
            if cur is not None:
                want.append(cur)
            want.append(b)
            cur = 0
        elif cur is not None:
            cur = max(cur, b)
    out = doc.write()
    got = []
    for piece in __import__('re').split(r'(\s+)', out):
        if piece:
            got.append(piece.count('\n') if piece.isspace() else piece)
    ctx.check(got == want, 'the newlines that were asked for')
    ctx.observe('out', out)
