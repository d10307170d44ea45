r"""The planted bugs; mkseed.py makes /verif/seeded from them."""

SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed('s01-down-octave', 'C01', 'a downward correction of a pitch with alteration below -1 that passes the octave (ces down to bes)',
     'the octave is not lowered when a flattened note is respelled below c',
     [('quickly/transpose.py', '''            pitch.alter += doct * -6 + self.scale[pitch.note] - self.scale[note]
            pitch.octave += doct
''', '''            pitch.alter += doct * -6 + self.scale[pitch.note] - self.scale[note]
            pitch.octave += max(0, doct)
''')], '''
from quickly.pitch import Pitch, MAJOR_SCALE
from quickly.transpose import Transposer
p = Pitch(0, 0, -1)
Transposer(Pitch(0, 0, 0), Pitch(0, 0, -0.5)).transpose(p)
height = p.octave * 6 + MAJOR_SCALE[p.note] + p.alter
assert height == -1.5, p
''')

seed('s02-reverse-steps', 'C02', 'a transposer from a higher to a lower note name in the same octave',
     'the alteration of an interval down is computed from the wrong note',
     [('quickly/transpose.py', '''        self.alter = (self.scale[to_pitch.note] + to_pitch.alter -
                      self.scale[from_pitch.note] - from_pitch.alter)''',
       '''        self.alter = (self.scale[to_pitch.note] + to_pitch.alter -
                      self.scale[from_pitch.note] - (from_pitch.alter if self.steps >= 0 else -from_pitch.alter))''')], '''
from quickly.pitch import Pitch
from quickly.transpose import Transposer
p = Pitch(0, 1, 0.5)
Transposer(Pitch(0, 1, 0.5), Pitch(0, 0, 0)).transpose(p)
assert p == Pitch(0, 0, 0), p
''')

seed('s03-octave-check', 'C03', 'a relative note with an octave check that is transposed past the octave by an interval smaller than an octave',
     'the octave check is moved by the octaves of the interval instead of to the octave of the new pitch',
     [('quickly/transpose.py', '''                    note.oct_check = p.octave - default_octave
''', '''                    note.oct_check += self.transposer.octave
''')], r'''
from quickly.dom import read
from quickly.pitch import Pitch
from quickly.transpose import Transposer, transpose
doc = read.lily_document(r"\relative c' { c b'=' }")
transpose(doc, Transposer(Pitch(0, 0, 0), Pitch(0, 1, 0)))
assert doc.write() == r"\relative d' { d cis'='' }", doc.write()
''')

seed('s04-start-pitch', 'C04', 'absolute music that starts on a pitch above f, made relative with a start pitch',
     'the start pitch and the first note do not match for a first note g',
     [('quickly/relative.py', '''                if p.note > 3:
                    last_pitch.octave += 1
                rel.append(processor.pitchable(last_pitch, lily.Pitch))''', '''                rel.append(processor.pitchable(last_pitch, lily.Pitch))
                if p.note > 4:
                    rel[-1].octave += 1
                    last_pitch.octave += 1
                elif p.note > 3:
                    last_pitch.octave += 1''')], r'''
from quickly.dom import read
from quickly.relative import abs2rel, rel2abs
for t in ("{ a' b' }", "{ f' b' }", "{ g' b' }"):
    doc = read.lily_document(t)
    abs2rel(doc)
    rel2abs(doc)
    assert doc.write() == t, doc.write()
''')

seed('s05-prefer-x-suomi', 'C05', 'an octave of more than one comma below the name of the pitch',
     'three or more commas are read as two',
     [('quickly/pitch.py', '''    return octave.count("'") - octave.count(",")''', '''    return octave.count("'") - min(2, octave.count(","))''')
      ], r'''
from quickly.pitch import octave_from_string, octave_to_string
for n in range(-6, 7):
    assert octave_from_string(octave_to_string(n)) == n, n
''')

seed('s06-flats-cache', 'C06', 'a key signature whose scale has a note that passes the octave (b-sharp) and the MIDI key of it',
     'the octave of b-sharp is one too high in sharp keys',
     [('quickly/key.py', '''        octave = lambda p: -1 if p > 6 else 1 if p < 0 else 0
        steps = [(octave(note + alter) - 5''', '''        octave = lambda p: -1 if p > 7 else 1 if p < 0 else 0
        steps = [(octave(note + alter) - 5''')], r'''
from quickly.key import KeySignature
for note, alter in ((0, .5), (4, .5)):
    sig = KeySignature(note, alter)
    for key in range(60, 72):
        assert sig.pitch(key).to_midi() == key, (note, key, sig.pitch(key))
''')

seed('s07-short-dots', 'C07', 'a dotted duration longer than a whole note',
     'the dots of a breve and longer are counted from the wrong side',
     [('quickly/duration.py', '''    log = 1 - exponent
    m, e = math.frexp(1 - mantisse)
''', '''    log = 1 - exponent
    if log < -1:
        mantisse = min(mantisse, 0.9375)
    m, e = math.frexp(1 - mantisse)
''')], r'''
from quickly.duration import from_string, to_string
for t in ('\\longa.', '\\longa...', '\\longa....', '\\breve....'):
    assert to_string(from_string(t)) == t, t
''')

seed('s08-transform-order', 'C08', 'adding a transform without log or dots to one that has a scale',
     'the scale of the left side is lost when it does not shift',
     [('quickly/duration.py', '''        scale = self.scale * other.scale
        return''', '''        scale = self.scale * other.scale if log or dotcount else other.scale
        return''')], r'''
from quickly.duration import Transform
a, b = Transform(scale=2), Transform(scale=3)
assert (a + b).length(1) == 6
''')

seed('s09-skip-previous', 'C09', 'two equal durations with a skip of another duration between, made implicit',
     'a note after a skip is left without its duration when that is the duration of the skip',
     [('quickly/rhythm.py', '''            if dur == prev and self.may_remove(node):
                del node.duration
            elif node.duration_sets_previous:
                prev = dur
        return prev


class RhythmImplicitPerLine''', '''            if dur == prev and self.may_remove(node):
                del node.duration
            elif prev is None or node.duration_sets_previous:
                prev = dur
        return prev


class RhythmImplicitPerLine''')], r'''
from quickly.dom import read
from quickly import rhythm
doc = read.lily_document(r"{ \skip 2 c2 d2 }")
rhythm.implicit(doc)
assert doc.write() == r"{ \skip 2 c2 d }", doc.write()
''')

seed('s10-paste-needed', 'C10', 'pasting durations with None first, where an item needs a duration',
     'an item that needs a duration keeps its old one in the second cycle',
     [('quickly/rhythm.py', '''            if duration:
                node.duration_scaling = duration
                prev = duration
            elif self''', '''            if duration:
                node.duration_scaling = duration
                prev = prev or duration
            elif self''')], r'''
from fractions import Fraction as F
from quickly.dom import read
from quickly import rhythm
doc = read.lily_document(r"{ c4 d4 e4 8 }")
rhythm.paste(doc, [(F(1, 2), 1), (F(1, 8), 1), None, (F(1, 16), 1)])
assert doc.write() == "{ c2 d8 e8 16 }", doc.write()
''')

seed('s11-include-dir', 'C21', 'a file included from an included file that lies next to the first document only',
     'a file is not sought next to the first document of a chain of includes',
     [('quickly/dom/scope.py', "        add(self.root().document().url)\n", "        add((self.parent or self).document().url)\n")], r"""
class Doc:
    def __init__(self, url): self.url = url
from quickly.dom.scope import Scope
docs = {u: Doc('file://' + u) for u in ('/m/a.ly', '/m/b/b.ly', '/m/b/c/c.ly', '/m/d.ly')}
def factory(name):
    try:
        return docs[name]
    except KeyError:
        raise OSError(name)
s = Scope(docs['/m/a.ly'], factory=factory)
s = s.include_scope('b/b.ly').include_scope('c/c.ly')
assert s.document() is docs['/m/b/c/c.ly']
d = s.include_scope('d.ly')
assert d and d.document() is docs['/m/d.ly'], d
""")

seed('s12-thousand', 'C24', 'a number that is exactly a thousand or a million (or thousand times one)',
     'a thousand is written as ten hundred',
     [('quickly/numbering.py', "            if n >= fact:", "            if n > fact:")], r"""
from quickly.numbering import int2text
assert int2text(999) == 'NineHundredNinetyNine'
assert int2text(1001) == 'OneThousandOne'
assert int2text(1000) == 'OneThousand', int2text(1000)
""")

seed('s14-common-trail', 'C12', 'two nodes of which the common ancestor is more than one level above the first one',
     'the trail of the first node is cut off if it is deeper than the common ancestor',
     [('quickly/node.py', """                return n, trail_self[i::-1], trail_other[::-1]""", """                return n, trail_self[:i-len(trail_self)-1:-1] if i else trail_self[:1], trail_other[::-1]""")], r"""
from quickly.node import Node
r = Node(Node(), Node(Node(), Node(Node(), Node(Node()))), Node())
a = r[1][1][1][0]
b = r[2]
assert a.common_ancestor_with_trail(b) == (r, [1, 1, 1, 0], [2])
b = r[1][0]
n, t, o = a.common_ancestor_with_trail(b)
assert n is r[1] and t == [1, 1, 0] and o == [0], t
""")

seed('s16-replace-start', 'C14', 'replacing a node on the start boundary that is deeper than one level by one with other children',
     'the range starts inside the new node after a replacement on the start boundary',
     [('quickly/node.py', """            if adjust_start and i == level.start:
                del level.start_trail[level.depth+1:]""", """            if adjust_start and i == level.start:
                del level.start_trail[level.depth+2:]""")], r"""
from quickly.node import Node, Range
class A(Node): pass
r = Node(Node(Node(), Node(), Node()), Node())
g = Range(r, [0, 2])
for n in g:
    if n is r[0]:
        g.node = A(A(), A(), A(), A())
g.reset()
assert len([n for n in g.nodes() if isinstance(n, A)]) == 5
""")

seed('s17-many-newlines', 'C15', 'whitespace of three or more newlines that meets one of two newlines with a space',
     'more than two newlines count as two',
     [('quickly/dom/util.py', r"    return text.count('\n'), text.count(' ')", r"    return min(2, text.count('\n')), text.count(' ')")], r"""
from quickly.dom import base
l = base.Line(base.Text('a', space_after='\n\n'), base.Text('b', space_before='\n\n\n'))
assert l.write() == 'a\n\n\nb', repr(l.write())
l = base.Line(base.Text('a', space_after='\n\n '), base.Text('b', space_before='\n\n\n'))
assert l.write() == 'a\n\n\nb', repr(l.write())
""")

seed('s21-from-cursor', 'C19', 'an edit from the cursor on, with the cursor inside a note or in whitespace',
     'the range from the cursor begins before it or is empty',
     [('quickly/dom/edit.py', "            start_node = d.find_descendant_right(cursor.pos)\n", "            start_node = d.find_descendant(cursor.pos)\n")], r"""
import parce, quickly
from quickly.dom import edit, lily
class E(edit.Edit):
    range_from_cursor = True
    readonly = True
    def edit_range(self, r):
        return [n.head for n in r.instances_of(lily.Note)]
d = parce.Document(quickly.find('lilypond'), r"{ c  d e }", transformer=True)
assert E().edit(parce.Cursor(d, 5)) == ['d', 'e']
assert E().edit(parce.Cursor(d, 4)) == ['d', 'e'], E().edit(parce.Cursor(d, 4))
""")

seed('s24-copy-modified', 'C23', 'an element with a modified text that is copied with its origin',
     'a copy with origin of a modified element is not modified',
     [('quickly/dom/element.py', """        copy = self._factory(self.head, *children, **self._space_attrs())
        copy.copy_origin_from(self)
        return copy""", """        copy = self._factory(self.head, *children, **self._space_attrs())
        copy.copy_origin_from(self, bool(self._modified & 2))
        return copy""")], r"""
import parce, quickly
d = parce.Document(quickly.find('lilypond'), r"{ c d }", transformer=True)
m = d.get_transform(True)
m[0][0].head = 'e'
m.copy_with_origin().edit(d)
assert d.text() == '{ e d }', d.text()
""")

seed('s26-wrong-language', 'C26', 'a language command that is no language between a valid one and the music',
     'the search for the language ends at the first command, valid or not',
     [('quickly/pitch.py', """            if lang in pitch_names:
                self.language = lang
                break

    def follow""", """            if lang in pitch_names:
                self.language = lang
            break

    def follow""")], r"""
from quickly.dom import read
from quickly.pitch import PitchProcessor
d = read.lily_document('\\language "english" \\include "defs.ily" { cs }')
p = PitchProcessor()
p.find_language(d[2][0])
assert p.language == 'english', p.language
""")

seed('s27-blank-lines', 'C27', 'more blank lines in the text than the maximum that is asked',
     'one blank line more than the maximum is kept',
     [('quickly/dom/util.py', "        count = min(count, max_blank_lines)", "        count = min(count, max_blank_lines + 1)")], r"""
import parce, quickly
from quickly.dom import util
t = "{ c\n\n\n\n\n d }"
d = parce.Document(quickly.find('lilypond'), t, transformer=True)
m = d.get_transform(True)
util.add_newlines(m, t, max_blank_lines=2)
assert m.write().count('\n') == 2, m.write()
""")

seed('s29-cursor-reference', 'C29', 'a cursor before a variable in music',
     'the time before a variable is that of the list it is in',
     [('quickly/time.py', "            if isinstance(node, lily.Music) or isinstance(node.parent, lily.Music):\n", "            if isinstance(node, lily.Music):\n")], r"""
import parce, quickly
from quickly.time import Time
from fractions import Fraction as F
t = r"m = { c1 } { c2 \m d }"
d = parce.Document(quickly.find('lilypond'), t, transformer=True)
r = Time(wait=True).cursor_position(parce.Cursor(d, t.index(r'\m')))
assert r.time == F(1, 2), r
""")

seed('s30-override-list', 'C30', 'the override markup command with more than one argument',
     'only the first argument of override is used',
     [('quickly/dom/markup.py', "    return _c('override', _pair(scm.Identifier(prop), value), _create_list(args))", "    return _c('override', _pair(scm.Identifier(prop), value), _create_list(args[:1] or args))")], r"""
from quickly.dom import markup
assert markup.override('a', 1, 'b').write() == r"\override #'(a . 1) b"
assert markup.override('a', 1, 'b', 'c').write() == r"\override #'(a . 1) { b c }", markup.override('a', 1, 'b', 'c').write()
""")

seed('s32-figure-open', 'C32', 'a figured bass figure that is not closed',
     'the last number of a figure that is not closed is left out',
     [('quickly/lang/lilypond.py', """        tail = (items.pop(),) if items[-1] == '>' else ()
        body = self.factory(lily.FigureBody""", """        tail = (items.pop(),) if len(items) > 1 else ()
        body = self.factory(lily.FigureBody""")], r"""
from quickly.dom import read
m = read.lily_document(r"\figuremode { <6> }", True)
assert m.write() == r"\figuremode { <6> }"
m = read.lily_document(r"\figuremode { <6 5", True)
from quickly.dom import lily
assert len(list(m // lily.FigureStep)) == 2, m.write()
""")

seed('s34-relative-range', 'C34', 'changing a cursor selection to absolute in which relative music is only partly selected',
     'relative music that is only partly selected is changed',
     [('quickly/relative.py', "            if isinstance(n, lily.Relative) and r.in_range():", "            if isinstance(n, lily.Relative) and n.parent:")], r"""
import parce, quickly
from quickly.relative import rel2abs
t = r"\relative c' { c d e } { f }"
d = parce.Document(quickly.find('lilypond'), t, transformer=True)
rel2abs(parce.Cursor(d, t.index('e }'), len(t)))
assert d.text() == t, d.text()
""")

seed('s35-properties', 'C35', 'adding properties of which one is None',
     'a property that is None does not replace the other',
     [('quickly/datatypes.py', "        d = vars(self) | vars(other)", "        d = vars(self) | {k: v for k, v in vars(other).items() if v is not None}")], r"""
from quickly.datatypes import Properties
p = Properties(a=1) + Properties(a=None)
assert 'a' in p and p.a is None, p
""")

seed('s15-reverse-level', 'C13', 'iterating backward through a level that was entered, with the start boundary above the first child',
     'iterating backward does not stop at the start of the range',
     [('quickly/node.py', """            while index >= self.start:
                self.index = index""", """            while index >= (self.start if self.start_trail is None or self.depth == 0 else 0):
                self.index = index""")], r"""
from quickly.node import Node, Range
r = Node(Node(Node(), Node(), Node()), Node())
g = Range(r, [0, 1])
back = list(g.descendants(reverse=True))
assert back[0] is r[1] and r[0][0] not in back and len(back) == 4, len(back)
""")

seed('s20-right-inside', 'C18', 'a position inside the last element of a list that has no element at or after the position',
     'the first element right of a position in an element without children after it is that element itself',
     [('quickly/dom/element.py', """                    if n.pos >= position:
                        return n""", """                    if n.pos >= position or not len(n):
                        return n""")], r"""
import parce, quickly
d = parce.Document(quickly.find('lilypond'), "{ cis d }", transformer=True)
m = d.get_transform(True)
assert m.find_descendant_right(2) is m[0][0]
assert m.find_descendant_right(3) is m[0][1], m.find_descendant_right(3)
""")

seed('s23-underscore', 'C22', 'an attribute of a block with an underscore in its name that is deleted',
     'deleting an attribute with an underscore deletes another one or nothing',
     [('quickly/dom/lily.py', """    def __delete__(self, instance):
        instance.unset_variable(self.name)""", """    def __delete__(self, instance):
        instance.unset_variable(self.name.split('-')[0])""")], r"""
from quickly.dom import lily
p = lily.Paper()
p.top_margin = 3
p.left_margin = 4
del p.top_margin
assert p.top_margin is None and p.left_margin == 4, p.write()
""")

seed('s25-apostrophe', 'C25', 'a character that is a backslash itself in a Scheme character',
     'a Scheme character reads without all of its backslashes',
     [('quickly/dom/scm.py', r"        return origin[0].text[2:]    # leave out the '#\' prefix", r"        return origin[0].text[1:].lstrip('\\')    # leave out the '#\' prefix")], r"""
from quickly.dom import read, scm
n = read.scm('#\\a')
assert n.head == 'a'
n = read.scm('#\\\\')
assert n is None or n.head == '\\', n
""")

seed('s28-spanner-mirror', 'C28', 'a spanner in a score that has music in an assignment or score before it with the same spanner',
     'the other end is sought outside of the score',
     [('quickly/dom/lily.py', "        upto = next(self << (Assignment, New, Document, Score), None)", "        upto = next(self << (Assignment, New, Document, Book), None)")], r"""
from quickly.dom import read, lily
m = read.lily_document(r"\score { { c( d } } \score { { e f) } }")
a, b = m // lily.Slur
assert a.find_parallel() is None, a.find_parallel()
""")

seed('s18-indent-reuse', 'C16', 'an indenter that is used again after a block that was not closed at the begin of a line',
     'an indenter starts with the indent where the last text ended',
     [('quickly/dom/indent.py', "        self._indent_stack.clear()\n        self._indenters.clear()\n        self._dedenters = 0\n", "        self._indenters.clear()\n        self._dedenters = 0\n")], r"""
from quickly.dom import lily, indent
m = lily.MusicList(lily.Note('c'), space_after_head='\n', space_before_tail='\n')
i = indent.Indenter()
assert i.write(m) == '{\n  c\n}\n'
assert i.write(m) == '{\n  c\n}\n'
m.space_before_tail = ' '
assert i.write(m) == '{\n  c }\n'
assert i.write(m) == '{\n  c }\n', i.write(m)
""")

seed('s22-argument-comment', 'C20', 'an element that has a comment among its children already, and needs more arguments',
     'comments among the children of an element count as its arguments',
     [('quickly/dom/element.py', "        child_nodes = lambda n: n ^ ignore_type", "        child_nodes = lambda n: n")], r"""
from quickly.dom import element, base
class A(element.HeadElement): head = 'a'
class B(element.HeadElement): head = 'b'
class C(element.HeadElement):
    head = 'c'
    def signatures(self):
        return (A, B),
c, = element.build_tree([C(A()), B()], base.Comment)
assert len(c) == 2, len(c)
c, = element.build_tree([C(base.MultilineComment('x'), A()), B()], base.Comment)
assert len(c) == 3, len(c)
""")

CAUGHT = {}
