"""C20: elements get their arguments, and keep their children in order."""
from fractions import Fraction

from quickly.dom import element, lily, base
from vs.ctx import harness


def any_class(match):
    """A class of which the elements are instances that match says; match maps the name of an element to a (symbolic) bool."""
    class Meta(type(element.Element)):
        def __instancecheck__(cls, node):
            return bool(match[node.name])

    class M(element.Element, metaclass=Meta):
        pass
    return M


class Item(element.Element):
    __slots__ = ('name', 'sigs', 'order')

    def __init__(self, name, *children, sigs=(), order=()):
        super().__init__(*children)
        self.name = name
        self.sigs = sigs
        self.order = order

    def signatures(self):
        return self.sigs

    def child_order(self):
        return self.order

    def tree(self):
        return [self.name, [n.tree() for n in self]]


SIGS = ['none', 'one', 'two', 'either']


def built(nodes, slots, fits, ignored, kids):
    """The trees there should be: every element takes what follows as long as it fits."""
    todo = list(nodes)      # names, or trees that are finished

    def read():
        x = todo.pop(0)
        if not isinstance(x, int):
            return x
        tree = [x, [[k, []] for k in kids[x]]]
        sigs = slots[x]
        for k in kids[x]:
            if ignored and ignored(k):
                continue
            sigs = [s[1:] for s in sigs if fits(x, s[0], k) and len(s) > 1]
            if not sigs:
                return tree
        if not sigs:
            return tree
        while todo:
            y = todo[0]
            name = y if isinstance(y, int) else y[0]
            if ignored and isinstance(y, int) and not slots[y] and ignored(name):
                todo.pop(0)
                tree[1].append([y, []])
                continue
            arg = read()
            if ignored and ignored(arg[0]):
                tree[1].append(arg)
                continue
            new = [s[1:] for s in sigs if fits(x, s[0], arg[0])]
            if not new:
                todo.insert(0, arg)
                return tree
            tree[1].append(arg)
            sigs = [s for s in new if s]
            if not sigs:
                return tree
        return tree
    result = []
    while todo:
        result.append(read())
    return result


def flat(trees):
    return [n for name, kids in trees for n in [name] + flat(kids)]


def cases(sizes):
    return [dict(n=n, first=f, ignore=i) for n in sizes for f in SIGS for i in (False, True)]


@harness('C20', cases=cases((1, 2, 3, 4, 5)), thorough=cases((1, 2, 3, 4, 5, 6)),
         bounds='up to five (thorough: six) elements with up to two arguments in up to two signatures, any of which may fit any element or not')
def arguments(ctx):
    """A stream of elements gets the structure of their signatures: every one takes what fits, nothing is lost, and the order stays."""
    n = ctx.params['n']
    ignore = ctx.params['ignore']
    sig = [ctx.params['first']] + [ctx.pick('sig%d' % i, SIGS) for i in range(1, n)]
    kids = [[] for i in range(n)]
    names = n
    if n < 3 and sig[0] != 'none' and ctx.flag('child'):
        kids[0].append(n)
        names += 1
    slots = [{'none': [], 'one': [(0,)], 'two': [(0, 1)], 'either': [(0,), (0, 1) if n > 2 else (1, 2)]}[s] for s in sig]
    match = {}
    classes = {}
    for i in range(n):
        for s in set(x for t in slots[i] for x in t):
            match[i, s] = {j: ctx.bool('fits%d.%d.%d' % (i, s, j)) for j in range(names)}
            classes[i, s] = any_class(match[i, s])
    skip = {j: ctx.bool('ignore%d' % j) if j and (j < n or ignore) and sig[j if j < n else 0] in ('none', sig[0]) and ignore and (j >= n or sig[j] == 'none') else False
            for j in range(names)}
    slots += [[] for i in range(n, names)]
    nodes = [Item(i, *(Item(k) for k in kids[i]), sigs=[tuple(classes[i, s] for s in t) for t in slots[i]]) for i in range(n)]
    got = list(element.build_tree(iter(nodes), any_class(skip)) if ignore else element.build_tree(nodes))
    got = [x.tree() for x in got]
    ctx.check(flat(got) == [y for i in range(n) for y in [i] + kids[i]], 'nothing is lost and the order stays')
    fits = lambda i, s, j: bool(match[i, s][j])
    want = built(range(n), slots, fits, (lambda j: bool(skip[j])) if ignore else None, kids)
    ctx.check(got == want, 'every element takes the arguments that fit')
    ctx.observe('trees', got)


@harness('C20', cases=[dict(n=n) for n in (0, 1, 2, 3)], thorough=[dict(n=n) for n in (0, 1, 2, 3, 4)],
         bounds='up to three (thorough: four) children of four types, two orders')
def added(ctx):
    """A child that is added comes at its place in the order, and all others stay as they were."""
    n = ctx.params['n']
    rank = {i: ctx.int('type%d' % i, 0, 4) for i in range(n + 1)}
    cls = [any_class({i: rank[i] == r for i in rank}) for r in range(5)]
    two = ctx.flag('two orders')
    order = [tuple(cls[:2]), tuple(cls[2:4])] if two else [tuple(cls[:4])]
    node = Item('p', *(Item(i) for i in range(n)), order=order)
    node.add(Item(n))
    got = [x.name for x in node]
    ctx.check(all(x.parent is node for x in node), 'the parent')
    ctx.check([x for x in got if x != n] == list(range(n)), 'the others stay in order')
    ctx.check(got.count(n) == 1, 'it is added')
    at = got.index(n)
    new = rank[n]
    for r in range(5):
        earlier = {2: [0, 1], 3: [0, 1]}.get(r) if two else None
        group = range(0, 2) if two and r < 2 else range(2, 4) if two else range(0, 4)
        before = [ctx.Or(*([False] + [rank[i] == q for q in group if q < r])) for i in range(n)]
        if r == 4:
            ctx.check(ctx.Implies(new == 4, at == n), 'a type that is not in the order is appended')
        else:
            ctx.check(ctx.Implies(new == r, ctx.And(*before[:at])), 'it is not after a child that must follow it')
            if at < n:
                ctx.check(ctx.Implies(new == r, ctx.Not(before[at])), 'it is after the children that must precede it')
    ctx.observe('children', got)


NOTES = {
    'note': (lambda *a: lily.Note('c', *a), ('octave', 'accidental', 'oct_check', 'duration', 'articulations')),
    'pitch': (lambda *a: lily.Pitch('c', *a), ('octave', 'accidental', 'oct_check')),
    'rest': (lambda *a: lily.Rest(*a), ('duration', 'articulations')),
    'pitched rest': (lambda *a: lily.PitchedRest('c', *a), ('octave', 'accidental', 'oct_check', 'duration', 'modifier', 'articulations')),
    'space': (lambda *a: lily.Space(*a), ('duration', 'articulations')),
    'chord': (lambda *a: lily.Chord(lily.ChordBody(lily.Note('c')), *a), ('body', 'duration', 'articulations')),
    'drum': (lambda *a: lily.Drum('bd', *a), ('duration', 'articulations')),
    'q': (lambda *a: lily.Q(*a), ('duration', 'articulations')),
    'lyric': (lambda *a: lily.LyricText('la', *a), ('duration',)),
    'lyric skip': (lambda *a: lily.LyricSkip(*a), ('duration',)),
    'lyric item': (lambda *a: lily.LyricItem(lily.String('la'), *a), ('body', 'duration')),
}
TYPES = dict(octave=lily.Octave, accidental=lily.Accidental, oct_check=lily.OctCheck, duration=lily.Duration,
             articulations=lily.Articulations, modifier=lily.RestModifier)
PROPERTIES = ('octave', 'accidental', 'oct_check', 'duration', 'scaling')


def child(ctx, what, name):
    if what in ('octave', 'oct_check'):
        v = ctx.int(name, -5, 5)
        if what == 'octave':
            ctx.assume(v != 0)
        return TYPES[what](v), v
    if what == 'accidental':
        v = ctx.pick(name, ['cautionary', 'forced'])
        return lily.Accidental(v), v
    if what == 'duration':
        v = ctx.real(name, Fraction(1, 8), 2, 8)
        return lily.Duration(v), v
    if what == 'scaling':
        v = ctx.real(name, Fraction(1, 2), 4, 2)
        return lily.DurationScaling(v), v
    if what == 'modifier':
        return lily.RestModifier(), None
    return lily.Articulations(lily.Tie()), None


@harness('C20', cases=[dict(kind=k) for k in NOTES], bounds='eleven element types, any of their children present, any values of octave -5 to 5, durations in eighths, scalings in halves; one property set or deleted')
def attributes(ctx):
    """Setting, reading and deleting octave, accidental, octave check, duration and scaling of notes and other music."""
    make, parts = NOTES[ctx.params['kind']]
    have = {}
    kids = []
    for p in parts:
        if p != 'body' and ctx.flag('has ' + p):
            n, have[p] = child(ctx, p, 'old ' + p)
            kids.append(n)
            if p == 'duration' and ctx.flag('has scaling'):
                s, have['scaling'] = child(ctx, 'scaling', 'old scaling')
                n.append(s)
    node = make(*kids)
    if 'duration' in have:
        have.setdefault('scaling', 1)
    props = [p for p in PROPERTIES if p in parts or p == 'scaling' and 'duration' in parts]
    default = {'octave': 0}
    for p in props:
        v = getattr(node, p)
        w = have.get(p, default.get(p))
        ctx.check(v is None if w is None else v is not None and v == w, 'reading a property')
    p = ctx.pick('property', props)
    how = ctx.pick('how', ['set', 'none', 'del'])
    if p == 'scaling' and 'duration' not in have and how == 'set':
        v = ctx.real('new', Fraction(1, 2), 4, 2)
        ctx.assume(v != 1)
        try:
            node.scaling = v
        except ValueError:
            ctx.observe('error', True)
            return
        ctx.check(False, 'scaling without duration is an error')
    if how == 'set':
        v = child(ctx, p, 'new')[1]
        if p == 'octave' and ctx.flag('zero'):
            v = 0
        setattr(node, p, v)
        have[p] = v
        if p == 'duration':
            have.setdefault('scaling', 1)
    else:
        if how == 'del':
            delattr(node, p)
        else:
            setattr(node, p, 0 if p == 'octave' else None)
        have.pop(p, None)
        if p == 'duration':
            have.pop('scaling', None)
        elif p == 'scaling' and 'duration' in have:
            have['scaling'] = 1
    for q in props:
        v = getattr(node, q)
        w = have.get(q, default.get(q))
        ctx.check(v is None if w is None else v is not None and v == w, 'reading back')
    want = [TYPES.get(q) for q in parts if q == 'body' or q in have and not (q == 'octave' and how == 'set' and p == 'octave' and v_is_zero(have[q]))]
    want = [c for c in want if c]
    got = [type(n) for n in node if not isinstance(n, (lily.ChordBody, lily.String))]
    ctx.check(got == want, 'the children, each once and in order')
    body = [n for n in node if isinstance(n, (lily.ChordBody, lily.String))]
    ctx.check(len(body) == ('body' in parts) and (not body or node[0] is body[0]), 'the body stays first')
    scalings = [s for n in node / lily.Duration for s in n / lily.DurationScaling]
    s = have.get('scaling')
    if how == 'set' and p == 'scaling' or s is None:
        pass
    ctx.check(len(scalings) <= 1, 'at most one scaling')
    if p == 'scaling' and s is not None and not scalings:
        ctx.check(s == 1, 'no scaling is 1')
    ctx.observe('children', [c.__name__ for c in got])


def v_is_zero(v):
    return type(v) is int and v == 0
