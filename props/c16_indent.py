"""C16: indented output."""
from quickly.dom import base, element, indent, scm
from vs.ctx import harness
from props import tree_common as X
from props import write_common as W


class A(element.BlockElement):
    """A block that wants new lines to align with its first child, or else its second."""
    head = '<<'
    tail = '>>'

    def indent_align_indices(self):
        return iter((0, 1))


class S(element.BlockElement):
    """A block that wants new lines to align with its second child, or else its first."""
    head = '('
    tail = ')'

    def indent_align_indices(self):
        yield 1
        yield 0


class C(base.SinglelineComment):
    """A comment."""


class N(element.BlockElement):
    """A block that does not indent."""
    head = '"'
    tail = "'"

    def indent_children(self):
        return False


HEADS = {A: ('<<', '>>'), S: ('(', ')'), W.B: ('<', '>'), N: ('"', "'"), W.H: ('h', ''), W.E: ('', '')}


def pieces(n, parent=None, index=-1):
    """What is written, in order: ('w', whitespace), ('t', node, text), ('open', node), ('close', node), ('tail', node, text), ('child', node, index)."""
    head, tail = HEADS.get(type(n), ('', ''))
    if isinstance(n, element.TextElement):
        head = n.head
    yield 'w', n.space_before
    if parent is not None:
        yield 'child', parent, index
    if head:
        yield 't', n, head
        if tail or len(n):
            yield 'w', n.space_after_head
    opens = type(n) in (A, S, W.B)
    if opens:
        yield 'open', n
    for i, c in enumerate(n):
        if i:
            yield 'w', n.space_between
        yield from pieces(c, n, i)
    if opens:
        yield 'close', n
    if tail:
        yield 'w', n.space_before_tail
        yield 'tail', n, tail
    yield 'w', n.space_after


def strongest(ws):
    return max(ws, key=lambda w: (w.count('\n'), w.count(' ')), default='')


def simulate(node, width, start, limit):
    """The lines: [indent, text] each. By our own reckoning:

    a line has the indent of the blocks that are open at its begin; an open block adds the width to the indent that was
    there where it was opened, or, when a child it can align with began on the line the block was opened on,
    aligns with that. Tails at the begin of a line belong to the line before the indent.
    """
    lines = [[start, '']]
    stack = []      # open blocks: [node, line it was opened on, {index: column}, indent or None]
    ws = []
    waiting = []    # (block, index) of children that start at the next text

    def indent():
        return stack[-1][3] if stack else start

    def space():
        s = strongest(ws)
        ws.clear()
        for ch in s:
            if ch == '\n':
                newline()
            elif any(t for i, t in lines):
                lines[-1][1] += ch      # not before the very first text

    def newline():
        base_ = start
        for b in stack:
            if b[3] is None:
                col = None
                for i in {A: (0, 1), S: (1, 0)}.get(type(b[0]), ()):
                    if i in b[2]:
                        col = b[2][i]
                        break
                if col is not None and col <= limit:
                    b[3] = b[1][0] + col
                else:
                    b[3] = base_ + width
            base_ = b[3]
        lines.append([base_, ''])

    leading = True      # only tails on this line so far
    count = 1
    for p in pieces(node):
        if p[0] == 'w':
            ws.append(p[1])
            continue
        if p[0] == 'child':
            waiting.append((p[1], p[2]))
        elif p[0] == 'open':
            stack.append([p[1], lines[-1], {}, None])
        elif p[0] == 'close':
            stack.pop()
        else:
            space()
            if len(lines) != count:
                count = len(lines)
                leading = True
            text = p[2]
            if p[0] == 'tail':
                if leading:
                    lines[-1][0] = indent()
            else:
                leading = False
                if not lines[-1][1] and isinstance(p[1], C) and len(set(text[:3])) == 1 and len(text) > 2:
                    lines[-1][0] = 0
            for b in stack:
                for parent, i in waiting:
                    if b[0] is parent and b[1] is lines[-1]:
                        b[2].setdefault(i, len(lines[-1][1]))
            waiting.clear()
            lines[-1][1] += text
    while lines and not lines[0][1].strip():
        del lines[0]
    return lines


def spaces(ctx, nodes):
    """Every node on a new line or not, and every tail."""
    for i, n in enumerate(nodes):
        for w in SPACING:
            setattr(n, 'space_' + w, '')
        n.space_between = ' '
        n.space_before = ctx.pick('before%d' % i, ['\n', ' ']) if i or len(nodes) < 3 else ''
        if isinstance(n, element.BlockElement):
            n.space_before_tail = ctx.pick('tail%d' % i, ['\n', ' '])


SPACING = W.SPACES


def verify(ctx, root, width=(0, 3), start=(0, 2), limit=(0, 9)):
    width = ctx.int('indent_width', *width)
    start = ctx.int('start_indent', *start)
    limit = ctx.int('max_align_indent', *limit)
    how = ctx.params.get('how', 'write_indented')
    if how == 'write_indented':
        out = root.write_indented(width, start, limit)
    else:
        # an Indenter can be used again, also with other preferences
        i = indent.Indenter(indent_width=4)
        i.write(W.B(W.B(W.W('x'), space_before='\n'), space_after_head='\n'))
        i.indent_width, i.start_indent, i.max_align_indent = width, start, limit
        out = i.write(root)
    got = out.split('\n')
    ctx.check(got.pop() == '', 'a newline at the end')
    want = simulate(root, width, start, limit)
    ctx.check(len(got) == len(want), 'the lines that were asked for')
    for g, (ind, text) in zip(got, want):
        ctx.check(g.lstrip(' ') == text, 'the texts in order, with the whitespace that is wanted')
        if text:
            ctx.check(len(g) - len(g.lstrip(' ')) == ind, 'the indent of the line')
    plain = root.write()
    ctx.check(out.split() == plain.split(), 'the same texts as with write()')
    ctx.observe('out', out)


KINDS = [W.W, A, S, W.B, N, W.E, C]


@harness('C16', cases=[dict(n=n, root=r) for n in (1, 2) for r in range(1, 6)] + [dict(n=3, root=r, child=c) for r in range(1, 6) for c in range(7)],
         thorough=[dict(n=n, root=r) for n in (1, 2, 3) for r in range(1, 6)] + [dict(n=4, root=r, child=c) for r in range(1, 6) for c in range(7)],
         bounds='all trees of up to three (thorough: four) elements of seven kinds, every element and tail on a new line or not, widths 0-3, start 0-2, alignment up to 0-9 (three elements and more: 2, 1, 0-6)')
def indent_trees(ctx):
    """Indented output has the same texts, and every line the indent of its blocks."""
    s = X.shape(ctx, ctx.params['n'])
    nodes = []
    for i in range(s.n):
        fixed = {0: 'root', 1: 'child'}.get(i)
        k = KINDS[ctx.params[fixed]] if fixed in ctx.params else ctx.pick('kind%d' % i, KINDS)
        if k is W.E:
            ctx.assume(bool(s.kids[i]))
        elif k is C:
            ctx.assume(not s.kids[i])
        nodes.append(k('%%%%%%' if i == s.n - 1 else '%%') if k is C else k('w%d' % i) if k is W.W else k())
    for i in range(1, s.n):
        nodes[s.parent[i]].append(nodes[i])
    spaces(ctx, nodes)
    if s.n < 3:
        verify(ctx, nodes[0])
    else:
        verify(ctx, nodes[0], (2, 2), (1, 1), (0, 6))


def w(n):
    return lambda: W.W('abcdefgh'[:n])


TEMPLATES = {
    'siblings': (W.B, (A, w(1), w(2)), (A, w(1), w(2), w(1))),
    'scheme': (S, w(2), (S, w(4), w(1), w(1)), w(1)),
    'deep': (W.B, (W.B, (W.B, w(1)), w(1)), w(1)),
    'chord': (A, (W.E, (N, w(1)), w(2)), (W.E, w(1), w(1)), w(1)),
    'words': (W.E, w(3), (A, w(1), w(1)), w(1), (W.B, w(1), w(1))),
    'nested': (A, (W.W, (S, w(1), w(2), w(1))), w(1), w(1)),
}


def make(t, nodes):
    if not isinstance(t, tuple):
        n = t()
        nodes.append(n)
        return n
    n = t[0]('word') if t[0] is W.W else t[0]()
    nodes.append(n)
    for c in t[1:]:
        n.append(make(c, nodes))
    return n


@harness('C16', cases=[dict(template=t, how='write_indented') for t in TEMPLATES] + [dict(template='deep', how='Indenter')],
         bounds='six trees of up to nine elements, every element and tail on a new line or not, width 3, start 1, alignment up to 2-6')
def indent_templates(ctx):
    """Lines align with the child of the block they are in, and return to the indent of the blocks that are still open."""
    nodes = []
    root = make(TEMPLATES[ctx.params['template']], nodes)
    spaces(ctx, nodes)
    verify(ctx, root, (3, 3), (1, 1), (2, 6))
