"""C26: the pitch language and the style of the pitch names in existing music."""
from parce.lang.lilypond_words import pitch_names
from quickly.dom import lily
from quickly.pitch import Pitch, PitchProcessor, determine_language
from vs.ctx import harness
from props import tree_common as X
from props.c05_pitch_names import LANGS, PREFS, USED, named

KNOWN = [l for l in LANGS if len(l) == 7]        # english, deutsch, ...
LETTERS = ''.join(sorted(set(''.join(KNOWN)))) + 'z'
KINDS = ['note', 'list', 'language', 'include', 'nolanguage']


def among(ctx, x, options):
    """Whether the text is one of the options, without making it concrete."""
    return ctx.Or(*(x == y for y in options if len(x) == len(y)))


def document(ctx, n, kinds=KINDS, length=7):
    """A music list with notes, lists and commands; the nodes in document order, and the language every node sets.

    A language is (name, condition): it is set if the condition holds.
    """
    s = X.shape(ctx, n)
    langs = [None] * n
    nodes = [None] * n

    def build(i):
        kids = [build(c) for c in s.kids[i]]
        if kids or i == 0:
            node = lily.MusicList(*kids)
        else:
            kind = ctx.pick('kind%d' % i, kinds)
            if kind == 'note':
                node = lily.Note('c')
            elif kind == 'list':
                node = lily.MusicList()
            elif kind == 'nolanguage':
                node = ctx.pick('no%d' % i, [lily.Language, lily.Include])()
            else:
                name = ctx.text('language%d' % i, LETTERS, length)
                known = among(ctx, name, KNOWN)
                if kind == 'language':
                    node = lily.Language(lily.String(name))
                elif ctx.flag('extension%d' % i):
                    node = lily.Include(lily.String(name + '.ly'))
                else:
                    node = lily.Include(lily.String(name + '.xx'))
                    known = False
                langs[i] = (name, known)
        nodes[i] = node
        return node
    build(0)
    return s, nodes, langs


def is_last(ctx, lang, langs, default):
    """Whether it is the last language that is set."""
    r = lang == default
    for l in langs:
        if l:
            r = ctx.Or(ctx.And(l[1], lang == l[0]), ctx.And(ctx.Not(l[1]), r))
    return r


@harness('C26', cases=[dict(n=n, node=i) for n in (1, 2, 3, 4) for i in range(n)], thorough=[dict(n=n, node=i) for n in (1, 2, 3, 4, 5) for i in range(n)],
         bounds='all trees of up to four (thorough: five) nodes, seen from any node; every language name or file name of seven letters')
def language_found(ctx):
    """The last valid language that is set before a node is found, by any command, anywhere in the document."""
    n = ctx.params['n']
    s, nodes, langs = document(ctx, n)
    i = ctx.params['node']
    p = PitchProcessor('english' if n < 4 and ctx.flag('english') else None)
    was = p.language
    p.find_language(nodes[i])
    before = [langs[j] for j in range(i) if not s.inside(i, j)]
    ctx.check(is_last(ctx, p.language, before, was), 'the last language before the node')


@harness('C26', cases=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)],
         bounds='all trees of up to four (thorough: five) nodes; every language name or file name of seven letters')
def language_followed(ctx):
    """Going through nodes, the language is the last one set, and only the commands that set one are left out."""
    n = ctx.params['n']
    s, nodes, langs = document(ctx, n)
    p = PitchProcessor()
    it = p.follow_language(nodes)
    got = []
    for node in it:
        got.append((node, p.language))
    want = 0
    for i in range(n):
        if langs[i]:
            if any(node is nodes[i] for node, l in got):
                ctx.check(ctx.Not(langs[i][1]), 'no command that sets a language')
            else:
                ctx.check(langs[i][1], 'all other nodes')
                continue
        ctx.check(want < len(got) and got[want][0] is nodes[i], 'all nodes in order')
        ctx.check(is_last(ctx, got[want][1], langs[:i+1], 'nederlands'), 'with their language')
        want += 1
    ctx.check(want == len(got), 'nothing else')
    ctx.check(is_last(ctx, p.language, langs, 'nederlands'), 'the last language remains')


@harness('C26', cases=[dict(length=l) for l in (5, 6, 7, 8, 9, 10)], bounds='every name of 5 to 10 letters')
def language_attribute(ctx):
    """The language of a processor is one of those that exist; commands keep the language they are given."""
    name = ctx.text('name', ''.join(sorted(set(''.join(LANGS)))) + 'z', ctx.params['length'])
    p = PitchProcessor('english')
    known = among(ctx, name, LANGS)
    try:
        p.language = name
        ok = True
    except KeyError:
        ok = False
    ctx.check(known if ok else ctx.Not(known), 'the languages that exist')
    ctx.check(p.language == (name if ok else 'english'), 'only a language that exists is set')
    del p.language
    ctx.check(p.language == 'nederlands', 'the default')
    old = ctx.flag('old')
    a = lily.Language(*([lily.String('suomi')] if old else []))
    a.language = name
    ctx.check(ctx.And(len(a) == 1, a.language == name), 'of the command')
    b = lily.Include(*([lily.String('suomi.ly')] if old else []))
    b.language = name
    ctx.check(ctx.And(len(b) == 1, b.filename == name + '.ly'), 'the file name')
    if ok:
        ctx.check(b.language == name, 'of the file')
    else:
        ctx.check(b.language is None, 'no language')


def combinations(names):
    return [()] if not names else [c + x for c in combinations(names[1:]) for x in ((), (names[0],))]


_cache = {}


def written(p, lang):
    """All names that are written with the preferences."""
    key = (lang,) + tuple(bool(getattr(p, 'prefer_' + x)) for x in PREFS)
    if key not in _cache:
        _cache[key] = all_names(p, lang)
    return _cache[key]


def all_names(p, lang):
    return sorted({p.name_octave(Pitch(0, *k))[0] for k in named(lang)})


@harness('C26', cases=[dict(language=l, prefs=p, names=2) for l in USED for p in combinations(USED[l])],
         thorough=[dict(language=l, prefs=p, names=3) for l in USED for p in combinations(USED[l])],
         bounds='every language that has preferences, with all preferences; two (thorough: three) of any names it has then, the language '
                'being the current one or one of the names')
def style_kept(ctx):
    """Preferences distilled from names write all those names the same way."""
    lang = ctx.params['language']
    p = PitchProcessor(lang)
    for name in USED[lang]:
        setattr(p, 'prefer_' + name, name in ctx.params['prefs'])
    before = written(p, lang)
    alphabet = ''.join(sorted(set(''.join(before))))
    names = []
    for i in range(ctx.params['names']):
        length = ctx.pick('length%d' % i, sorted({len(x) for x in before}))
        name = ctx.text('name%d' % i, alphabet, length)
        ctx.assume(among(ctx, name, before))
        names.append(name)
    other = lang != 'nederlands' and ctx.flag('other language')
    q = PitchProcessor('nederlands' if other else lang)
    if lang != 'english':
        for name in USED[lang]:
            setattr(q, 'prefer_' + name, ctx.flag('was ' + name))
    q.distill_preferences([lang] + names if other else names)
    ctx.check(q.language == ('nederlands' if other else lang), 'the language is not changed')
    q.language = lang
    now = written(q, lang)
    for name in names:
        ctx.check(among(ctx, name, now), 'the names stay')


@harness('C26', cases=[dict(lengths=l) for l in ((1,), (2,), (3,), (4,), (1, 2), (2, 2), (1, 3))],
         thorough=[dict(lengths=l) for l in ((1,), (2,), (3,), (4,), (5,), (6,), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (2, 4), (1, 2, 2))],
         bounds='every name of up to four (thorough: six) letters, every two of together up to four (thorough: six), thorough: three of together five')
def languages_determined(ctx):
    """The languages that have all names are found, the common ones first, every language once."""
    names = [ctx.text('name%d' % i, 'abcdefghilmnoqrsRxéz', n) for i, n in enumerate(ctx.params['lengths'])]
    got = list(determine_language(names))
    all_langs = {}
    for l in LANGS:
        all_langs.setdefault(id(pitch_names[l]), []).append(l)
    for synonyms in all_langs.values():
        has = ctx.And(*(among(ctx, name, list(pitch_names[synonyms[0]]) + list('rRsq')) for name in names))
        found = [l for l in got if l in synonyms]
        ctx.check(len(found) <= 1, 'every language once')
        ctx.check(has if found else ctx.Not(has), 'the languages that have all the names')
    order = ['nederlands', 'english', 'deutsch', 'français', 'italiano']
    rest = [l for l in got if l not in order]
    ctx.check([l for l in got if l in order] == [l for l in order if l in got] and got == [l for l in order if l in got] + rest, 'the common languages first')
    ctx.observe('languages', got)
