"""C33: reading again after a change."""
from quickly.dom import lily
from quickly.lang.lilypond import LilyPond
from vs.ctx import harness
from props import fragments as F
from props import read_common as R
from props.c32_reading import PIECES, around


def reread(ctx, rounds):
    d = R.Doc(ctx)
    d.plain = 'rich' not in ctx.params
    nodes = around(ctx, d)
    if ctx.flag('commented'):
        d('%{!%}')
        nodes += lily.MultilineComment('!'),
    want = lily.Document(*nodes)
    tree, transformer, first = R.read_tree(LilyPond.root, d.text, d.sample)
    written = first.write()
    for i in range(rounds):
        changed = list(R.contexts(tree))
        R.forget(transformer, changed[ctx.int('changed%d' % i, 0, len(changed) - 1)])
        got = transformer.transform_tree(tree)
        ctx.check(R.same(ctx, got, want), 'the elements')
        ctx.check(len(R.comments(got)) == len(R.comments(first)), 'the comments')
        ctx.check(got.write() == written, 'the text')
        R.check_origins(ctx, got, d.text, d.sample, LilyPond.root)
        ctx.check(got is not first, 'it was read again')
    ctx.check(first.write() == written, 'what was read first')


@harness('C33', cases=PIECES, thorough=[dict(p, rich=True) for p in PIECES],
         bounds='76 pieces of music, documents, lyrics, chords, figures and drums with symbolic words; every context of the tree can be the one that changed; '
                'with or without a comment at the end')
def reread_once(ctx):
    """One context has changed."""
    reread(ctx, 1)


@harness('C33', cases=PIECES[:4], thorough=PIECES, bounds='as above; two changes after each other; quick: four pieces of music, thorough: all')
def reread_twice(ctx):
    """Two times a context has changed."""
    reread(ctx, 2)
