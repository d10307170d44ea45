"""C23: copies of elements, and equality."""
import io
from fractions import Fraction

from quickly.dom import base, element, htm, lily, scm, tex
import quickly.lang.lilypond, quickly.lang.html, quickly.lang.latex, quickly.lang.scheme
from vs.ctx import harness
from props import tree_common as X
from props.write_common import E, H, B, W, SPACES

DEFAULTS = ['', ' ', '\n']


class Token:
    def __init__(self, name):
        self.pos, self.end = name, name
        self.text = 't'


def make(ctx, n, prefix='', kinds=('E', 'H', 'B', 'W'), s=None, picked=None):
    """A tree of elements with symbolic heads; returns nodes in document order, their kinds and heads."""
    s = s or X.shape(ctx, n)
    picked = picked or [ctx.pick('%skind%d' % (prefix, i), kinds) for i in range(n)]
    heads = [ctx.text('%shead%d' % (prefix, i), 'abc', 1) if k == 'W' else None for i, k in enumerate(picked)]
    nodes = [None] * n

    def build(i):
        kids = [build(c) for c in s.kids[i]]
        k = picked[i]
        nodes[i] = W(heads[i], *kids) if k == 'W' else {'E': E, 'H': H, 'B': B}[k](*kids)
        return nodes[i]
    build(0)
    return s, picked, heads, nodes


def order(node):
    return [node] + [x for c in node for x in order(c)]


def same_shape(a, b):
    return len(a) == len(b) and all(same_shape(x, y) for x, y in zip(a, b))


@harness('C23', cases=[dict(n=n, origin=o) for n in (1, 2, 3) for o in (False, True)], thorough=[dict(n=n, origin=o) for n in (1, 2, 3, 4) for o in (False, True)],
         bounds='all trees of up to three (thorough: four) elements of four (from three elements: three) kinds, with any texts, none, all or one with an origin, one with a whitespace preference and one that is modified')
def copies(ctx):
    """A copy is equal, with all preferences, and independent; it has the origin and modifications if wanted."""
    n = ctx.params['n']
    s, kinds, heads, nodes = make(ctx, n, kinds=('E', 'H', 'B', 'W') if n < 3 else ('E', 'B', 'W'))
    keep = ctx.params['origin']
    which = ctx.pick('origins', ['none', 'all', 'first', 'last'])
    has = []
    for i, node in enumerate(nodes):
        has.append(kinds[i] != 'E' and (which == 'all' or i == {'first': 0, 'last': n - 1}.get(which)))
        if has[i]:
            node.head_origin = (Token('head%d' % i),)
            if kinds[i] == 'B':
                node.tail_origin = (Token('tail%d' % i),)
    j = ctx.size('special', 0, n - 1)
    space = ctx.pick('space', SPACES if n < 3 else SPACES[:2])
    value = ctx.text('value', ' \n', ctx.size('spaces', 1, 2) if n < 2 else 1)
    setattr(nodes[j], 'space_' + space, value)
    words = [i for i in range(n) if kinds[i] == 'W']
    modified = words[ctx.size('modified', 0, len(words) - 1)] if words and ctx.flag('modify') else None
    if modified is not None:
        heads[modified] = 'new'
        nodes[modified].head = 'new'
    top = ctx.size('top', 0, n - 1) if n < 3 else 0
    deep = n > 2 or ctx.flag('with children')
    node = nodes[top]
    copy = node.copy_with_origin(deep) if keep else node.copy(deep)
    new = order(copy)
    old = order(node) if deep else [node]
    ctx.check(copy.parent is None and len(new) == len(old) and (not deep or same_shape(copy, node)), 'the same structure')
    ctx.check(all(a is not b and type(a) is type(b) for a, b in zip(new, old)), 'new nodes of the same types')
    if deep:
        ctx.check(copy.equals(node) and node.equals(copy), 'the copy is equal')
    for a, b in zip(new, old):
        i = nodes.index(b)
        if kinds[i] == 'W':
            ctx.check(a.head == heads[i], 'the text')
        for x in SPACES:
            ctx.check(getattr(a, 'space_' + x) == (value if i == j and x == space else ''), 'the whitespace preferences')
        if keep and has[i]:
            ctx.check(a.head_origin is b.head_origin and (kinds[i] != 'B' or a.tail_origin is b.tail_origin), 'the origin')
        else:
            ctx.check(not hasattr(a, 'head_origin') and not hasattr(a, 'tail_origin'), 'no origin')
        ctx.check(bool(a._modified) == (keep and i == modified), 'it is modified if the original is')
    # independent
    for a in new:
        if isinstance(a, W):
            a.head = 'other'
        a.space_before = '\t'
        a.append(H())
    for i, b in enumerate(nodes):
        ctx.check(b.space_before == (value if i == j and space == 'before' else ''), 'the preferences of the original stay')
        ctx.check(len(b) == len(s.kids[i]), 'the children of the original stay')
        if kinds[i] == 'W':
            ctx.check(b.head == heads[i], 'the texts of the original stay')
        ctx.check(bool(b._modified) == (i == modified), 'the original is modified as it was')


@harness('C23', cases=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)],
         bounds='all two trees of up to three (thorough: four) elements of four kinds that have the same shape, or another one, with any texts')
def equality(ctx):
    """Two trees are equal if they have the same structure, types and texts, whatever their origin and whitespace preferences."""
    n = ctx.params['n']
    s, kinds, heads, nodes = make(ctx, n, kinds=('E', 'H', 'W'))
    if ctx.flag('same shape'):
        t = s
    else:
        t = other_shape(ctx, ctx.size('other n', 1, n))
    m = t.n
    i = ctx.size('different', 0, m - 1)
    other_kinds = [kinds[j] if j < len(kinds) and j != i else ctx.pick('other kind%d' % j, ('E', 'H', 'B', 'W')) for j in range(m)]
    t, other_kinds, other_heads, others = make(ctx, m, 'other ', s=t, picked=other_kinds)
    others[0].space_after = ' '
    if kinds[0] == 'H':
        nodes[0].head_origin = (Token('x'),)
    got = nodes[0].equals(others[0])
    ctx.check(others[0].equals(nodes[0]) == got, 'it is symmetrical')
    if s.d != t.d or kinds != other_kinds:
        ctx.check(ctx.Not(got), 'other trees')
    else:
        same = ctx.And(*(a == b for a, b, k in zip(heads, other_heads, kinds) if k == 'W'))
        ctx.check(ctx.And(ctx.Implies(got, same), ctx.Implies(same, got)), 'equal if all texts are')


def other_shape(ctx, n):
    d = [0]
    for i in range(1, n):
        d.append(ctx.size('other depth%d' % i, 1, d[-1] + 1))
    return X.Shape(d)


@harness('C23', bounds='elements of four kinds, with or without origin, and all flags')
def origin_from(ctx):
    """The origin of another element is taken over, with the modified flag that is wanted."""
    a, b = (ctx.pick(x, ['H', 'B', 'W']) for x in ('from', 'to'))
    make_one = {'H': lambda: H(), 'B': lambda: B(), 'W': lambda: W('x')}
    src, dst = make_one[a](), make_one[b]()
    has = ctx.flag('origin')
    if has:
        src.head_origin = (Token('head'),)
        if a == 'B':
            src.tail_origin = (Token('tail'),)
    if a == 'W' and ctx.flag('modified'):
        src.head = 'y'
    if b == 'W' and ctx.flag('other modified'):
        dst.head = 'z'
    was = bool(dst._modified)
    flag = ctx.pick('flag', [None, True, False])
    dst.copy_origin_from(src, flag)
    ctx.check(getattr(dst, 'head_origin', None) is getattr(src, 'head_origin', None), 'the head origin')
    if b == 'B':
        ctx.check(getattr(dst, 'tail_origin', None) is getattr(src, 'tail_origin', None), 'the tail origin')
    if b == 'W':
        want = bool(src._modified) if flag is None else has if flag else False
        ctx.check(bool(dst._modified) == want, 'the modified flag')
        ctx.check(dst.head == ('z' if dst.head == 'z' else 'x'), 'the text stays')
    else:
        ctx.check(not dst._modified, 'other elements are never modified')


NUMBERS = (lily.Duration, lily.DurationScaling)
MODULES = [base, lily, scm, htm, tex]


def classes(kind):
    """All element types of quickly, in order of name."""
    r = []
    for m in MODULES:
        for name, c in vars(m).items():
            if isinstance(c, type) and issubclass(c, element.Element) and c.__module__ == m.__name__ and issubclass(c, element.TextElement) == (kind == 'text'):
                r.append((m.__name__ + '.' + name, c))
    return [c for name, c in sorted(r, key=lambda x: x[0])]


@harness('C23', cases=[dict(kind=k) for k in ('text', 'fixed')], bounds='every element type of quickly, with any text, a child and a whitespace preference')
def every_type(ctx):
    """Elements of every type copy to an equal element of that type, and differ from others."""
    all_classes = classes(ctx.params['kind'])
    i = ctx.size('type', 0, len(all_classes) - 1)
    cls = all_classes[i]
    text = ctx.params['kind'] == 'text'
    if cls in NUMBERS:
        head, other = (ctx.pick(x, [1, 2]) for x in ('head', 'other'))
    else:
        head, other = (ctx.text(x, 'abc', 1) for x in ('head', 'other'))

    def new(cls, head):
        return cls._factory(head, W('child')) if text else cls(W('child'))
    node = new(cls, head)
    node.space_between = ctx.pick('space', ['', '\t', '\n\n'])
    if ctx.flag('origin'):
        if isinstance(node, element.HeadElement):
            node.head_origin = (Token('head'),)
        copy = node.copy_with_origin()
        if isinstance(node, element.HeadElement):
            ctx.check(copy.head_origin is node.head_origin, 'the origin')
    else:
        copy = node.copy()
    ctx.check(type(copy) is cls and copy.equals(node) and copy.parent is None and copy[0] is not node[0], 'an equal copy')
    ctx.check(copy.space_between == node.space_between, 'the preference')
    if text:
        ctx.check(copy.head == head, 'the text')
        eq = new(cls, other).equals(node)
        ctx.check((head == other) if eq else (head != other), 'equal if the text is')
    same = new(all_classes[i - 1], head) if all_classes[i - 1] not in NUMBERS else H()
    ctx.check(not same.equals(node), 'other types differ')


TEXTS = {
    'note': lambda ctx: lily.Note(ctx.concrete(ctx.text('note', 'cde', 1)), lily.Octave(ctx.concrete(ctx.int('octave', -1, 1)))),
    'rest': lambda ctx: lily.Rest(lily.Duration(ctx.pick('duration', [1, 1 / 2, 3 / 8]))),
    'string': lambda ctx: lily.String(ctx.concrete(ctx.text('string', 'a"\\\n\'', 2))),
    'chord': lambda ctx: lily.Chord(lily.Note('c')),
    'scheme': lambda ctx: lily.Scheme('#', ctx.pick('scheme', [scm.Bool(True), scm.Number(1.5), scm.List(scm.Identifier('a'))])),
    'comment': lambda ctx: lily.MultilineComment('x'),
    'skip': lambda ctx: lily.Skip(lily.Duration(2)),
    'tex': lambda ctx: tex.Command('begin', tex.Option(tex.Text('x'))),
}


@harness('C23', cases=[dict(n=n) for n in (1, 2, 3)], bounds='a music list or document of up to two elements of eight kinds, of any texts; all of the tree, or one element in it')
def python_code(ctx):
    """The Python code that is printed for a tree makes an equal tree."""
    n = ctx.params['n']
    kinds = [ctx.pick('kind%d' % i, list(TEXTS)) for i in range(min(n, 2))]
    kids = []
    for i, k in enumerate(kinds):
        if i and k == kinds[0]:
            kids.append(kids[0].copy())
        else:
            kids.append(TEXTS[k](ctx))
    tree = lily.MusicList(*kids)
    if n == 3:
        tree = lily.Document(tree, lily.Version(lily.String('2')))
    nodes = order(tree)
    node = nodes[ctx.size('which', 0, len(nodes) - 1)]
    f = io.StringIO()
    node.py_dump(f)
    code = f.getvalue()
    g = io.StringIO()
    node.py_dump(g, 4)
    ctx.check(g.getvalue() == code, 'the width of an indent is four by default')
    got = eval(code, {'lily': lily, 'scm': scm, 'tex': tex, 'Fraction': Fraction})
    ctx.check(isinstance(got, element.Element), 'it is code for an element')
    ctx.check(got.equals(node), 'the element is equal')
