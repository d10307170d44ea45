"""Reading texts: documents whose words, names and numbers are symbolic.

A document is built piece by piece: literal texts, and words of which every character is symbolic. The lexer (parce, not
part of this codebase) runs on a sample of the document, and the tokens get the symbolic texts; every other value of the
words is supposed to have the same tokens. In replays and witnesses the real lexer runs on the real text.
"""
import parce
import parce.tree
from parce.transform import Transformer

SPACE = ' \n\t'


# words that must be followed directly by a brace for the lexer
BLOCKS = {'\\' + w for w in ('with', 'header', 'paper', 'layout', 'midi', 'context', 'score', 'book', 'bookpart')}

UNCOMMENTED = ('\\skip', '\\lyricsto')


class Doc:
    """A text in the making."""
    simple = False      # if True, always the first option
    few = False         # if True, one of the first two options

    def __init__(self, ctx, comment=None):
        self.ctx = ctx
        self.comment = comment      # a comment to add somewhere where there is a space
        self.plain = bool(comment) and 'rich' not in ctx.params     # no durations and octaves
        self.spaces = 0
        self.text = ''
        self.sample = ''
        self.words = 0

    def __call__(self, s):
        """Add a literal text."""
        if self.comment and ' ' in s:
            parts = s.split(' ')
            s = ''
            for i, part in enumerate(parts):
                if i:
                    s += ' '
                    self.spaces += 1
                    if self.comment and not self.inside and not (part.startswith('{') and parts[i-1] in BLOCKS) and parts[i-1] not in UNCOMMENTED and self.ctx.flag('here%d' % self.spaces):
                        s += self.comment
                        self.comment = None
                s += part
        self.text = self.text + s
        self.sample += s

    inside = 0      # inside something where a comment is text

    def solid(self, s):
        """Add a literal text that has no place for a comment."""
        self.inside += 1
        self(s)
        self.inside -= 1

    @property
    def commented(self):
        return self.spaces and not self.comment

    def word(self, alphabet, n=1, sample=None):
        """Add (and return) a text of n characters."""
        self.words += 1
        text = self.ctx.text('word%d' % self.words, alphabet, n)
        self.text = self.text + text
        self.sample += (sample or alphabet[0] * n) if self.ctx.symbolic else text
        return text

    def number(self, digits, n=1):
        """Add a number of n digits; returns its value."""
        text = self.word(digits, n)
        if not self.ctx.symbolic:
            return int(text)
        from vs import ops
        return ops.str_to_int(text)

    def pick(self, options):
        """One of some texts."""
        if self.simple:
            options = options[:1]
        elif self.few:
            options = options[:2]
        self.words += 1
        s = self.ctx.pick('word%d' % self.words, options) if len(options) > 1 else options[0]
        if s:
            self(s)
        return s


def put(tree, text):
    """Give the tokens their texts."""
    for t in tree.tokens():
        t.text = text[t.pos:t.pos + len(t.text)]


class symbolic_tokens:
    """While active, tokens that are made from the sample get the text."""
    def __init__(self, text):
        self.text = text

    def __enter__(self):
        self.real = make = parce.tree.make_tokens

        def make_tokens(lexemes, parent=None):
            tokens = make(lexemes, parent)
            for t in tokens:
                t.text = self.text[t.pos:t.pos + len(t.text)]
            return tokens
        parce.tree.make_tokens = make_tokens

    def __exit__(self, *args):
        parce.tree.make_tokens = self.real


def parse(lexicon, text, sample):
    tree = parce.root(lexicon, sample)
    put(tree, text)
    return tree


def read_tree(lexicon, text, sample):
    """Read as a document does; returns the tree, the transformer and the element."""
    tree = parse(lexicon, text, sample)
    transformer = Transformer()
    return tree, transformer, transformer.transform_tree(tree)


def read_text(function, text, sample, *args):
    """Read with one of the functions of quickly.dom.read."""
    with symbolic_tokens(text):
        return function(sample, *args)


def contexts(tree):
    for n in tree:
        if not n.is_token:
            yield n
            yield from contexts(n)


def forget(transformer, node):
    """What happens to the cache of a transformer if a context was changed."""
    while node.parent:
        transformer._cache.pop(node, None)
        node = node.parent


def chars(text):
    """The characters without whitespace."""
    return [c for c in text if not (isinstance(c, str) and c in SPACE)]


def same_text(ctx, a, b):
    """Whether two texts are the same, not counting whitespace."""
    a, b = chars(a), chars(b)
    return len(a) == len(b) and ctx.And(*(x == y for x, y in zip(a, b)))


def origins(node):
    """All (pos, end, text) of heads and tails, in order."""
    for p in node.points():
        if p.pos is not None and p.pos != p.end:
            yield p.pos, p.end, p.text


def check_origins(ctx, node, text, sample, lexicon):
    """Every token is in one head or tail, in order, and is written as it is in the text."""
    points = list(origins(node))
    ctx.check(all(p[1] <= q[0] for p, q in zip(points, points[1:])), 'the positions are in order')
    covered = [False] * len(sample)
    same = []
    for pos, end, t in points:
        for i in range(pos, end):
            covered[i] = True
        same.append(same_text(ctx, t() if callable(t) else t, text[pos:end]))
    ctx.check(ctx.And(*same), 'the text at the positions')
    ctx.check(all(c or s in SPACE for c, s in zip(covered, sample)), 'nothing is left out')


def resample(text, source, sample):
    """The sample of a text that was written, where its characters come from the source."""
    known = {}
    for c, s in zip(source, sample):
        if not isinstance(c, str):
            known[id(c.chars[0])] = s
    out = ''
    for c in text:
        if isinstance(c, str):
            out += c
        else:
            s = known.get(id(c.chars[0]))
            if s is None:
                return None
            out += s
    return out


def same(ctx, a, b):
    """Whether two elements are equal, wherever their comments are."""
    from quickly.dom import base
    todo = [(a, b)]
    heads = []
    while todo:
        a, b = todo.pop()
        if type(a) is not type(b):
            return False
        heads.append(a.body_equals(b))
        x, y = ([n for n in m if not isinstance(n, base.Comment)] for m in (a, b))
        if len(x) != len(y):
            return False
        todo.extend(zip(x, y))
    return ctx.And(*heads)


def comments(node):
    from quickly.dom import base
    return [n for n in node.descendants() if isinstance(n, base.Comment)]


def same_all(ctx, a, b):
    """Whether two elements are equal and have the same comments."""
    x, y = comments(a), comments(b)
    return len(x) == len(y) and ctx.And(same(ctx, a, b), *(m.equals(n) for m, n in zip(x, y)))
