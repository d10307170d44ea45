"""Elements with texts and whitespace, and what they should write (C15, C16)."""
from quickly.dom import element


class E(element.Element):
    """No text."""


class H(element.HeadElement):
    head = 'h'


class B(element.BlockElement):
    head = '<'
    tail = '>'


class W(element.TextElement):
    """A word."""


class D(element.Element):
    """Other whitespace between its children, depending on them."""
    space_between = ' \t'

    def concat_space(self, n, m):
        return '\n\t' if isinstance(n, W) and isinstance(m, B) else self.space_between


SPACES = ('before', 'after_head', 'between', 'before_tail', 'after')


def fragments(n):
    """The texts and whitespace demands of a node, in order, as ('t', text) and ('w', whitespace)."""
    yield 'w', n.space_before
    head = n.head if isinstance(n, W) else {H: 'h', B: '<'}.get(type(n), '')
    tail = '>' if type(n) is B else ''
    if head:
        yield 't', head
        if tail or len(n):
            yield 'w', n.space_after_head
    prev = None
    for c in n:
        if prev is not None:
            if type(n) is D:
                yield 'w', '\n\t' if type(prev) is W and type(c) is B else n.space_between
            else:
                yield 'w', n.space_between
        yield from fragments(c)
        prev = c
    if tail:
        yield 'w', n.space_before_tail
        yield 't', tail
    yield 'w', n.space_after


def texts_and_gaps(n):
    """The texts, and the demands before, between and after them."""
    texts, gaps = [], [[]]
    for kind, value in fragments(n):
        if kind == 't':
            texts.append(value)
            gaps.append([])
        else:
            gaps[-1].append(value)
    return texts, gaps
