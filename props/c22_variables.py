"""C22: variables of blocks and documents, versions and languages as attributes."""
from quickly.dom import element, lily, read, scm
from vs.ctx import harness

BLOCKS = {'header': lily.Header, 'paper': lily.Paper, 'layout': lily.Layout, 'document': lily.Document}
VALUES = ['int', 'str', 'bool', 'float', 'int unit', 'float unit', 'element']


def value(ctx, label, kinds=VALUES):
    """A value to set, and the value that must be read."""
    kind = ctx.pick(label + '.type', kinds)
    if kind == 'int':
        return ctx.int(label, 0, 9)
    if kind == 'str':
        return ctx.text(label, 'ab"\\#', ctx.size(label + '.length', 0, 1))
    if kind == 'bool':
        return ctx.bool(label)
    if kind == 'float':
        return ctx.real(label, 0, 4, 4, 'float')
    if kind == 'element':
        return lily.Markup('markup', lily.MarkupWord('x'))
    v = ctx.int(label, 0, 9) if kind == 'int unit' else ctx.real(label, 0, 4, 4, 'float')
    return v, ctx.pick(label + '.unit', ['mm', 'cm', 'in', 'pt'])


def is_value(ctx, got, want):
    """The same value, of the same type."""
    if isinstance(want, element.Element) or isinstance(got, element.Element) or got is None:
        return got is want
    if isinstance(want, tuple) or isinstance(got, tuple):
        if not (isinstance(want, tuple) and isinstance(got, tuple) and len(want) == len(got)):
            return False
        return ctx.And(*(is_value(ctx, a, b) for a, b in zip(got, want)))
    if ctx.pytype(got) is not ctx.pytype(want):
        return False
    return got == want




def start(ctx, n):
    """A block with n variables, with comments around them; returns the block, the mapping, and all that has to stay."""
    cls = BLOCKS[ctx.params['block']]
    block = cls()
    known = []
    keep = []
    for i in range(n):
        name = ctx.text('name%d' % i, 'xyz', 1)
        for k, v in known:
            ctx.assume(k != name)
        if ctx.flag('before%d' % i):
            c = lily.MultilineComment('before')
            keep.append(c)
            block.append(c)
        raw = lily.Int if ctx.params['block'] == 'paper' else lily.String
        v = ctx.int('value%d' % i, 0, 9) if ctx.params['block'] == 'paper' else ctx.text('value%d' % i, 'ab', 1)
        a = lily.Assignment(lily.Identifier(lily.Symbol(name)), lily.EqualSign())
        where = ctx.pick('comment%d' % i, ['none', 'before', 'after', 'list']) if i == 0 else 'none'
        c = lily.MultilineComment('c')
        if where == 'before':
            a.append(c)
        a.append(lily.List(raw(v), c) if where == 'list' else raw(v))
        if where == 'after':
            a.append(c)
        if where in ('before', 'after'):
            keep.append((a, c))
        block.append(a)
        known.append([name, v])
    if ctx.flag('last'):
        c = lily.SinglelineComment('last')
        block.append(c)
        keep.append(c)
    return block, known, keep


def compare(ctx, block, known, keep, gone=()):
    """The block has the known variables and values, and still has everything else."""
    ctx.check(block.variables() == [k for k, v in known], 'the names in order')
    for k, v in known:
        ctx.check(is_value(ctx, block.get_variable(k), v), 'the value of a variable')
    for k in 'xyz':
        if all(bool(k != n) for n, v in known):
            ctx.check(block.get_variable(k) is None, 'a variable that is not set')
            ctx.check(block.find_assignment(k) is None, 'an assignment that is not there')
        else:
            a = block.find_assignment(k)
            ctx.check(ctx.And(a.get_name() == k, a.parent is block), 'the assignment of a variable')
    got = [n for n in block if not isinstance(n, lily.Assignment)]
    want = [c for c in keep if not isinstance(c, tuple)]
    ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'other nodes stay')
    ctx.check(all(a not in list(block) or c in list(a) for a, c in (c for c in keep if isinstance(c, tuple))), 'comments stay')
    ctx.check(all(len(list(a / lily.EqualSign)) == 1 and len(list(a / lily.Identifier)) == 1 for a in block / lily.Assignment), 'assignments are complete')


@harness('C22', cases=[dict(block=b, n=n, ops=o) for b, n, o in (('header', 1, 2), ('paper', 2, 1), *((b, i, 2 - i) for b in BLOCKS for i in (0, 1)))],
         thorough=[dict(block=b, n=n, ops=o) for b in BLOCKS for n, o in ((0, 2), (0, 3), (1, 2), (2, 2), (3, 1))],
         bounds='blocks of up to two variables with comments anywhere, one or two (thorough: up to three) changes, names of one letter of three, values of seven types (with more than two variables and changes, of three): numbers of up to 9, texts of up to one character of five')
def history(ctx):
    """Variables that are set, changed and removed in any order are there with the last value, in order, and nothing else changes."""
    block, known, keep = start(ctx, ctx.params['n'])
    compare(ctx, block, known, keep)
    for i in range(ctx.params['ops']):
        name = ctx.text('op%d.name' % i, 'xyz', 1)
        at = next((j for j, (k, v) in enumerate(known) if k == name), None)
        if ctx.pick('op%d' % i, ['set', 'unset']) == 'set':
            v = value(ctx, 'op%d.value' % i, VALUES if i == 0 and ctx.params['ops'] + ctx.params['n'] < 3 else ['int', 'bool', 'element'])
            block.set_variable(name, v)
            if at is None:
                known.append([name, v])
            else:
                known[at][1] = v
        else:
            block.unset_variable(name)
            if at is not None:
                del known[at]
        compare(ctx, block, known, keep)
    ctx.observe('names', block.variables())


def attributes_of(cls):
    return sorted(n for n, v in vars(cls).items() if isinstance(v, lily._Variable))


@harness('C22', cases=[dict(block=b) for b in ('header', 'paper', 'layout')], bounds='every attribute of the three classes, two values, one of them in the other order')
def block_attributes(ctx):
    """The attributes of a block are its variables, with hyphens; setting None, or deleting, removes them."""
    cls = BLOCKS[ctx.params['block']]
    names = attributes_of(cls)
    i = ctx.pick('attribute', names)
    j = names[names.index(i) - 1]
    block = cls()
    ctx.check(getattr(block, i) is None, 'not set')
    v = value(ctx, 'value')
    setattr(block, j, 5)
    setattr(block, i, v)
    ctx.check(is_value(ctx, getattr(block, i), v) and getattr(block, j) == 5, 'the values')
    ctx.check(block.variables() == [j.replace('_', '-'), i.replace('_', '-')], 'the names')
    ctx.check(is_value(ctx, block.get_variable(i.replace('_', '-')), v), 'the variable')
    w = value(ctx, 'new', ['int', 'str'])
    setattr(block, i, w)
    ctx.check(is_value(ctx, getattr(block, i), w) and len(block) == 2, 'a new value')
    if ctx.flag('delete'):
        delattr(block, i)
    else:
        setattr(block, i, None)
    ctx.check(getattr(block, i) is None and getattr(block, j) == 5 and len(block) == 1, 'it is removed')


@harness('C22', bounds='all values of the seven types in the bounds of history, and numbers and texts in Scheme')
def value_elements(ctx):
    """A value that is made an element reads back the same, also after it is written; an element without simple value reads as None."""
    v = value(ctx, 'value')
    node = lily.create_element_from_value(v)
    ctx.check(isinstance(node, element.Element), 'an element')
    if isinstance(v, element.Element):
        ctx.check(node is v and lily.create_value_from_element(node) is None, 'an element stays')
        return
    ctx.check(is_value(ctx, lily.create_value_from_element(node), v), 'the value')
    v = tuple(map(ctx.concrete, v)) if isinstance(v, tuple) else ctx.concrete(v)
    block = lily.Paper()
    block.indent = v
    d = read.lily_document(lily.Document(block).write())
    ctx.check(is_value(ctx, d[0].indent, v), 'the value that is read back')


@harness('C22', bounds='Scheme numbers of 0 to 9, texts and booleans; fractions of numbers 1 to 9; Symbols')
def other_values(ctx):
    """The values of elements that can stand for a value."""
    kind = ctx.pick('kind', ['int', 'str', 'bool', 'fraction', 'symbol', 'list', 'quote', 'float'])
    a = ctx.int('a', 0, 9)
    if kind == 'float':
        f = ctx.real('f', 0, 4, 4, 'float')
        node = lily.Float(f) if ctx.flag('plain') else lily.Scheme('#', scm.Number(f))
        ctx.check(is_value(ctx, lily.get_num_value(node), f), 'the number of a float')
        got = lily.get_int_value(node)
        if got is None:
            ctx.check(ctx.And(f != 0, f != 1, f != 2, f != 3, f != 4), 'no integer')
        else:
            ctx.check(ctx.And(got == f, ctx.pytype(got) is int), 'the integer of a float')
        return
    s = ctx.text('s', 'ab', 1)
    t = ctx.bool('t')
    if kind == 'fraction':
        b = ctx.int('b', 1, 9)
        got = lily.create_value_from_element(lily.Fraction((a, b)))
        ctx.check(got * b == a, 'the value of a fraction')
        num = lily.get_num_value(lily.Fraction((a, b)))
        ctx.check(num * b == a, 'the number of a fraction')
        return
    if kind in ('list', 'quote'):
        node = scm.List(scm.Number(a)) if kind == 'list' else scm.Quote("'", scm.Number(a))
        ctx.check(lily.create_value_from_element(lily.Scheme('#', node)) is None, 'no simple value')
        ctx.check(lily.get_num_value(lily.Scheme('#', node)) is None, 'no number')
        return
    node, v = {'int': (scm.Number(a), a), 'str': (scm.String(s), s), 'bool': (scm.Bool(t), t), 'symbol': (None, s)}[kind]
    node = lily.Symbol(s) if node is None else lily.Scheme(ctx.pick('sign', ['#', '$']), node)
    ctx.check(is_value(ctx, lily.create_value_from_element(node), v), 'the value')
    if kind != 'bool':
        ctx.check(is_value(ctx, lily.get_num_value(node), v) if kind == 'int' else lily.get_num_value(node) is None, 'the number')
        ctx.check(is_value(ctx, lily.get_int_value(node), v) if kind == 'int' else lily.get_int_value(node) is None, 'the integer')


@harness('C22', cases=[dict(kind=k) for k in ('version', 'language', 'include')], bounds='versions of up to three numbers of 0 to 3, texts of up to two characters, present or not, with comments')
def commands(ctx):
    r"""The version, language and file name read as they are set, in \version, \language, \include and the document."""
    kind = ctx.params['kind']
    c = [lily.MultilineComment('c')] if ctx.flag('comment') else []
    if kind == 'version':
        old = tuple(ctx.ints('old', ctx.size('parts', 1, 2), 0, 3)) if ctx.flag('present') else ()
        node = lily.Version(*c, *([lily.String('.'.join(str(ctx.concrete(x)) for x in old))] if old else []))
        ctx.check(node.version == old, 'the old version')
        new = tuple(ctx.ints('new', ctx.size('new parts', 1, 3), 0, 3))
        if ctx.flag('document'):
            d = lily.Document(lily.MusicList(), *([node] if old or c else []))
            ctx.check(d.version == old, 'the old version of the document')
            d.version = new
            ctx.check(d.version == new, 'the version of the document')
            ctx.check(len(list(d // lily.Version)) == 1 and len(list(d // lily.String)) == 1, 'one version')
        else:
            node.version = new
            ctx.check(node.version == new and len(list(node / lily.String)) == 1, 'the version')
            ctx.check(all(n in list(node) for n in c), 'comments stay')
        return
    name = ctx.text('old', 'ab', 2) if ctx.flag('present') else None
    kids = c + ([lily.String(name)] if name is not None else [])
    if kind == 'language':
        node = lily.Language(*kids)
        ctx.check(node.language == name, 'the old language')
        new = ctx.text('new', 'ab', 2)
        node.language = new
        ctx.check(node.language == new, 'the language')
    else:
        node = lily.Include(*kids)
        ctx.check(node.filename == name and node.language is None, 'the old file name')
        lang = ctx.pick('language', ['deutsch', 'english', 'x'])
        if ctx.flag('by language'):
            node.language = lang
            ctx.check(node.filename == lang + '.ly', 'the file name of a language')
        else:
            node.filename = lang + ctx.pick('extension', ['.ly', '.ily'])
        ctx.check(node.language == (lang if lang != 'x' and node.filename.endswith('.ly') else None), 'the language of a file')
    ctx.check(len(list(node / lily.String)) == 1 and all(n in list(node) for n in c), 'one text, comments stay')
