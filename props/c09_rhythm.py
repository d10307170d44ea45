"""C09: making durations explicit or implicit."""
from vs.ctx import harness
from props import common as K, rhythm_common as R
from quickly import rhythm
from quickly.dom import lily
from quickly.node import Range

F = K.F
KINDS = ['note', 'chord', 'skip', 'unpitched', 'note-', 'comment']
MORE = ['note', 'chord', 'rest', 'space', 'q', 'skip', 'unpitched', 'note-', 'drum', 'comment', 'bar', 'nested']
OPS = [dict(op='explicit'), dict(op='implicit')]
EDITS = dict(explicit=rhythm.RhythmExplicit, implicit=rhythm.RhythmImplicit, perline=rhythm.RhythmImplicitPerLine)


def cases(kinds, n, ops=OPS):
    return R.split([dict(o, n=n, kinds=kinds) for o in ops], 'kind0', kinds)


def check(ctx, doc, before):
    after = R.effective(doc)
    R.same(ctx, before, after, 'every note keeps its duration')
    ctx.check(not R.ambiguous(doc), 'no bare duration can be read as that of the item before it')
    return after


FEW = ['note', 'chord', 'unpitched', 'note-', 'skip']
PLAIN = [dict(o, scaling=False) for o in OPS]


@harness('C09', cases=cases(MORE, 2) + cases(KINDS, 3, PLAIN) + cases(['note', 'skip'], 3) + cases(R.LYRICS, 2) +
         cases(R.LYRICS, 3, PLAIN),
         thorough=R.split(cases(MORE, 3), 'kind1', MORE) + R.split(cases(KINDS, 4, PLAIN), 'kind1', KINDS) +
         cases(R.LYRICS, 3) + R.split(cases(R.LYRICS, 4, PLAIN), 'kind1', R.LYRICS),
         bounds='two items of twelve kinds, two lyrics, three notes or skips, every one with or without duration (any '
                'multiple of 1/8 to 1) and scaling (any multiple of 1/2 to 2); three items of six kinds and three '
                'lyrics without scaling (thorough: one more of each)')
def rhythm_effective(ctx):
    """Explicit and implicit keep the duration of every note."""
    kinds = ctx.params['kinds']
    doc, items = R.music(ctx, kinds, ctx.params['n'])
    if R.ambiguous(doc):
        return      # not something that can be read from a text
    before = R.effective(doc)
    had = {id(x[0]): R.own(x[0]) is not None for x in before}
    EDITS[ctx.params['op']]().edit_node(doc)
    after = check(ctx, doc, before)
    if ctx.params['op'] == 'explicit':
        ctx.check(all(R.own(x[0]) is not None for x in after), 'every note has a duration')
    else:
        prev = None
        for n, d, s in after:
            own = R.own(n) is not None
            ctx.check(not own or had[id(n)], 'no duration is added')
            must = n.duration_required or not rhythm.EditRhythm.may_remove(n)
            if own and prev is not None and not must:
                ctx.check(ctx.Not(ctx.And(d == prev[0], s == prev[1])), 'no repeated duration is left')
            if own and not isinstance(n, lily.Skip):
                prev = d, s
    rhythm_again = R.effective(doc)
    EDITS[ctx.params['op']]().edit_node(doc)
    R.same(ctx, rhythm_again, R.effective(doc), 'once more changes nothing')
    ctx.observe('has', [R.own(x[0]) is not None for x in after])
    ctx.observe('durations', [[d, s] for n, d, s in after])


@harness('C09', cases=R.split([dict(n=3, kinds=FEW, op=o, scaling=False) for o in ('explicit', 'implicit')], 'kind0', FEW),
         thorough=R.split(R.split([dict(n=4, kinds=FEW, op=o, scaling=False) for o in ('explicit', 'implicit')], 'kind0', FEW),
                          'kind1', FEW),
         bounds='three (thorough: four) items of five kinds without scaling, any range of them')
def rhythm_range(ctx):
    """In a selection, durations are made explicit and implicit without a change elsewhere."""
    n = ctx.params['n']
    doc, items = R.music(ctx, ctx.params['kinds'], n)
    if R.ambiguous(doc):
        return
    before = R.effective(doc)
    op = ctx.params['op']
    i = ctx.size('from', 0, n - 1)
    j = ctx.size('to', i, n - 1)
    had = [R.own(x) is not None for x in items]
    # the children of the last node are not in a Range
    end = items[j]
    while len(end):
        end = end[-1]
    EDITS[op]().edit_range(Range.from_nodes(items[i], end, True))
    after = check(ctx, doc, before)
    for k, x in enumerate(items):
        if not i <= k <= j:
            ctx.check((R.own(x) is not None) == had[k], 'nothing outside the selection is changed')
        elif op == 'explicit' and isinstance(x, R.TIMED):
            ctx.check(R.own(x) is not None, 'explicit in the selection')
    ctx.observe('has', [R.own(x[0]) is not None for x in after])


class PerLine(rhythm.RhythmImplicitPerLine):
    """Finds the lines of our music, instead of the blocks of a text."""
    lines = None

    def find_block(self, node):
        return self.lines[id(node)]


class Line:
    pass


@harness('C09', cases=cases(FEW, 3, [dict(op='perline', scaling=False)]),
         thorough=R.split(cases(FEW, 4, [dict(op='perline', scaling=False)]), 'kind1', FEW) + cases(KINDS, 3, [dict(op='perline')]),
         bounds='three (thorough: four) items of five kinds without scaling, on any lines')
def rhythm_per_line(ctx):
    """Implicit per line keeps the durations and writes the first one on every line."""
    n = ctx.params['n']
    doc, items = R.music(ctx, ctx.params['kinds'], n)
    if R.ambiguous(doc):
        return
    before = R.effective(doc)
    # the line every item is on
    lines = [Line()]
    start = []
    for i, x in enumerate(items):
        new = i == 0 or ctx.flag('newline%d' % i)
        if new and i:
            lines.append(Line())
        start.append(lines[-1])
    edit = PerLine()
    edit.lines = {}
    for x, l in zip(items, start):
        for d in [x] + list(x.descendants()):
            edit.lines[id(d)] = l
    edit.edit_node(doc)
    after = check(ctx, doc, before)
    seen = set()
    known = False
    for x, d, s in after:
        l = edit.lines[id(x)]
        own = R.own(x) is not None
        if isinstance(x, lily.Skip):
            continue        # has its own duration
        if known and id(l) not in seen:
            ctx.check(own, 'the first note on a line has its duration')
        seen.add(id(l))
        known = known or own
    ctx.observe('has', [R.own(x[0]) is not None for x in after])
