r"""The properties, and the checks that decide them; see gen.py."""


def mech(*pairs):
    return [dict(name=n, where=w) for n, w in pairs]


PROPS = []


def prop(id, title, statement, over, quant, why, files, mechanism, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mech(*mechanism), note=note, observe=observe))


PITCHES = 'all notes, alterations in the bounds of the pitch languages, and octaves'

prop('C01', 'Transposing a pitch moves it exactly by the interval',
     'Transposing a pitch by the interval between two pitches moves both its step (note name and octave) and its '
     'exact height by the step and height of that interval, whatever the three pitches are. The result always has '
     'a note from the seven names and an alteration that can be compared exactly.',
     ['inputs'], 'every pitch and every two pitches that make the interval, including quarter and other exact alterations',
     'tests transpose a few pitches; the claim is about every combination of three pitches, far more than can be listed',
     ['quickly/transpose.py', 'quickly/pitch.py'],
     [('steps and alterations of the interval', 'quickly/transpose.py Transposer.transpose')],
     'pitches: notes 0-6, octaves -8 to 8, alterations in quarter steps -2 to 2')

prop('C02', 'Transposers form a consistent algebra',
     'Adding two transposers gives one that moves every pitch as both do one after the other, subtracting one undoes '
     'adding it, and the transposer from one pitch to another brings the first exactly to the second and is undone by '
     'the reverse one. Going from a to b plus going from b to c names every result as going from a to c does.',
     ['inputs'], 'every two transposers and every pitch',
     'tests use single transposers; sums and differences are not tested at all, and the law is about all pairs',
     ['quickly/transpose.py'], [('sum and difference of transposers', 'quickly/transpose.py Transposer.__add__, __sub__')],
     'pitches: notes 0-6, octaves -3 to 3, alterations in quarter steps -2 to 2')

prop('C03', 'Transposing a document moves every sounding pitch and nothing else',
     r'Transposing music in a document moves every sounding pitch by the interval, in absolute, relative, fixed and '
     r'transposed music, chords, repeated relative expressions, key signatures, octave checks and chord '
     r'modes alike, while pitches that never sound or never transpose keep their notes. Transposing a selection moves '
     r'the notes in it and leaves everything that is written outside of it as it was.',
     ['programs', 'inputs'], 'every document built from the music kinds, any pitches and any transposer, any selection',
     'tests transpose a handful of texts by one interval; the interplay of nesting, octaves and selection boundaries is not sampled',
     ['quickly/transpose.py', 'quickly/pitch.py', 'quickly/dom/lily.py'],
     [('walking the music', 'quickly/transpose.py Transpose.edit_range'),
      ('reading and writing pitches of nodes', 'quickly/pitch.py PitchProcessor.process')],
     'up to three items of up to nine kinds per container; octaves -2 to 2, alterations of one half; see the bounds in the evidence')

prop('C04', 'Relative and absolute notation convert without changing a sounding pitch',
     r'Converting relative music to absolute, or absolute music to relative, keeps the sounding pitch of every note, '
     r'in chords, nested and fixed music and after octave checks, and leaves no music in the old notation in what was '
     r'to be converted; converting absolute to relative and back restores the very same notes. How the first pitch is '
     r'understood follows the start pitch, the setting or the version of the document, and only the selected '
     r'expression is converted.',
     ['programs', 'inputs'], 'every document built from the music kinds, any pitches, any start pitch, either version',
     'tests convert five short texts; octave arithmetic over the seven notes, nesting and start pitches is a product of choices',
     ['quickly/relative.py', 'quickly/pitch.py'],
     [('relative to absolute', 'quickly/relative.py Rel2abs.edit_range'), ('absolute to relative', 'quickly/relative.py Abs2rel.make_relative'),
      ('one step', 'quickly/pitch.py Pitch.make_absolute, make_relative')],
     'up to three items of nine kinds, octaves -2 to 2; failing octave checks and chord names in relative music are left out')

prop('C05', 'Pitch names are written and read back in every language',
     'In every pitch language and with any preferences, writing a pitch gives a name that reads back as the very same '
     'pitch, in the preferred style where that language has such a name, and the octave is written with as many commas or apostrophes as '
     'it needs. Writing a pitch to an existing note changes only what has to be changed, and a pitch that has no name is an error.',
     ['inputs', 'configurations'], 'all 21 language names, all preferences, all pitches and octaves',
     'tests check a few names in a few languages; names, preferences and octaves multiply',
     ['quickly/pitch.py'],
     [('names', 'quickly/pitch.py PitchProcessor.to_string, pitch, name_octave'), ('node notation', 'quickly/pitch.py PitchProcessor.read_node, write_node'),
      ('preferences', 'quickly/pitch.py PitchProcessor._english and the like'), ('octaves', 'quickly/pitch.py octave_to_string, octave_from_string')],
     'all languages and preferences; octaves -12 to 12; alterations in half, third and quarter steps up to two')

prop('C06', 'MIDI keys and key signatures agree with the pitches they stand for',
     'A pitch made from a MIDI key has that MIDI key, is spelled with flats or sharps as asked, and is a '
     'note of the scale in a key signature if there is one. The accidentals of a key signature make exactly the intervals of its '
     'mode from the tonic, also for custom modes, and the tonic found for a number of accidentals has that many.',
     ['inputs'], 'every MIDI key, every tonic, every mode, custom modes',
     'tests check a few keys; spelling depends on key, tonic and mode together',
     ['quickly/pitch.py', 'quickly/key.py'],
     [('MIDI', 'quickly/pitch.py Pitch.to_midi, from_midi'), ('accidentals', 'quickly/key.py accidentals, alterations'),
      ('spelling', 'quickly/key.py KeySignature.pitch'), ('tonic', 'quickly/key.py tonic'), ('\\key', 'quickly/dom/lily.py Key.key_signature')],
     'MIDI keys 0-127, tonics with alterations -1 to 1 in halves, all modes and custom modes of seven alterations')

prop('C07', 'Durations are written and read back exactly',
     r'Every duration that can be written in the notation (a base length from \maxima to 1/1024th and dots) is written and read back as the same value, and its '
     r'base length and dots are found exactly. Any other value is rounded down to the longest duration that can be written with it, '
     r'text that is no duration is an error, and scalings are read back and multiply.',
     ['inputs'], 'every base length and number of dots, every fraction as value, every text up to the length',
     'tests list a few durations; rounding is over all values between them',
     ['quickly/duration.py', 'quickly/dom/lily.py'],
     [('codec', 'quickly/duration.py to_string, from_string, log_dotcount, duration, is_writable'),
      ('nodes', 'quickly/dom/lily.py Duration, DurationScaling, HandleDuration')],
     'logs -3 to 10, dots up to 8, values in steps of 1/4096 in [1/4096, 16], texts up to 5 characters')

prop('C08', 'Duration transforms compose and match music commands',
     r'Shifting a duration changes its base length by a power of two and its number of dots, never below zero dots. Transforms add up in any '
     r'order to one that does the same as all together, a transform that does nothing is falsy, and tuplet, times and scaling commands '
     r'give notes exactly the length LilyPond does.',
     ['inputs'], 'all durations, shifts, dots and scalings',
     'tests use single values; associativity and order hold for all triples',
     ['quickly/duration.py', 'quickly/dom/lily.py'],
     [('transform', 'quickly/duration.py Transform, shift_duration'), ('commands', 'quickly/dom/lily.py Tuplet.transform and others')],
     'logs -3 to 9, shifts -4 to 4, dots up to 6, scales in steps of 1/16')

prop('C09', 'Making durations explicit or implicit keeps every duration',
     r'Writing all durations, or leaving out repeated ones (also with the first one on every line written), keeps the effective '
     r'duration and scaling of every note, chord, rest, skip, bare duration and lyric, and never lets a bare duration be read as that of the item before it. '
     r'Explicit leaves no item without duration, implicit adds none and leaves no repeated duration that could go, doing it again changes '
     r'nothing, and outside a selection everything stays.',
     ['programs', 'inputs'], 'every sequence of the item kinds, with any durations, scalings, line breaks and selections',
     'tests have four short texts; what may be left out depends on both neighbours of every item',
     ['quickly/rhythm.py', 'quickly/dom/lily.py'],
     [('explicit', 'quickly/rhythm.py RhythmExplicit'), ('implicit', 'quickly/rhythm.py RhythmImplicit, RhythmImplicitPerLine'),
      ('what may be removed', 'quickly/rhythm.py EditRhythm.may_remove'), ('inherited durations', 'quickly/dom/lily.py previous_duration')],
     'up to three items of twelve kinds; durations in eighths, scalings in halves')

prop('C10', 'Copying, pasting, transforming and removing durations do as asked',
     r'Copying gives for every item its written duration or nothing, or on request its effective one; pasting that back changes nothing, and '
     r'pasted durations are exactly what the items get, repeated only if asked. Transforming changes every written duration, also in '
     r'tempo, tuplet and partial commands, removing durations or scalings takes those and nothing else, and never what is needed to read the rest as before; a '
     r'selection limits all of these.',
     ['programs', 'inputs'], 'every sequence of the item kinds, durations, scalings, selections, and pasted lists',
     'tests paste and transform one text each; the rules depend on the neighbours and on the list',
     ['quickly/rhythm.py', 'quickly/dom/lily.py'],
     [('copy and paste', 'quickly/rhythm.py CopyRhythm, PasteRhythm'), ('transform', 'quickly/rhythm.py RhythmTransform'),
      ('remove', 'quickly/rhythm.py Remove, RemoveScaling, RemoveFractionScaling'), ('setting durations', 'quickly/dom/lily.py HandleDuration')],
     'up to three items of seven kinds; durations in eighths, scalings in halves, up to two pasted durations')

prop('C11', 'The length and position of music follow its structure',
     r'The length of music is the sum of the lengths of what it contains, or the longest for simultaneous music, after every '
     r'command that scales or shifts durations, inherited durations and music from variables; grace notes and music without sound take no time. The '
     r'position of a node is the length of all that comes before it in the topmost music, and the duration from one node to another is the '
     r'difference in position, both with the durations as LilyPond plays them.',
     ['programs', 'inputs'], 'every nesting of the music kinds, with any durations and scalings, and every node in it',
     'tests compute a few lengths; scaling depends on all commands around a node, and inheritance on all that comes before it',
     ['quickly/time.py', 'quickly/dom/lily.py', 'quickly/duration.py'],
     [('length', 'quickly/time.py Time.length, _length'), ('position', 'quickly/time.py Time.position'), ('duration', 'quickly/time.py Time.duration'),
      ('transforms', 'quickly/dom/lily.py Music.transform, Music.time_length')],
     'one or two (thorough: three) items of 30 kinds, durations in eighths up to 1, scalings in halves')

prop('C12', 'The node tree is consistent and is walked in document order',
     r'Every node knows its parent, also after any way of adding nodes, and the children are those of a list with the same changes. Going down, forward, '
     r'backward and up gives exactly the nodes it should, once and in document order or its reverse, within an ancestor if asked; trails, '
     r'depth, siblings and common ancestors agree with that. Searching finds exactly the nodes that match and skips what is below a found node where '
     r'it says so; copies are equal and share nothing, and trees that differ anywhere are not equal.',
     ['inputs', 'histories'], 'all shapes of trees, every node in them, any set of nodes that match, every change',
     'tests walk one small tree; the order depends on the shape of the tree around the node',
     ['quickly/node.py'],
     [('iteration', 'quickly/node.py Node.descendants, forward, backward'), ('structure', 'quickly/node.py Node.append, extend, insert, __setitem__, take, replace_with'),
      ('search', 'quickly/node.py Common.filter_descendants, _get_predicate_iterator'), ('common ancestors', 'quickly/node.py Node.common_ancestor_with_trail')],
     'all trees of up to seven nodes for walking, six for searching, five for pairs and copies; nodes with up to three children for changes')

prop('C13', 'A range has exactly the nodes from its start to its end',
     r'A range made of any start and end node (or none), or of any trails, has exactly the nodes from the start up to and including the end in document order, with '
     r'what is below the start node but not what is below the end node. It is empty and false if the end is before the start. Whether a node is in it '
     r'completely or partly, iterating it forward, backward, by level or from any current node, searching in it, the '
     r'trees extracted from it, and new ranges from its current node all agree with that, and the current node is kept as documented.',
     ['inputs', 'histories'], 'all shapes of trees, all start and end nodes, every current node',
     'no test makes a range at all, while every edit of a selection works on one',
     ['quickly/node.py'],
     [('boundaries', 'quickly/node.py Range._Level'), ('containment', 'quickly/node.py Range.__contains__, intersects, in_range, is_full'),
      ('iteration', 'quickly/node.py Range.descendants, nodes, forward, backward, children, enter, leave'), ('copies', 'quickly/node.py Range.extract_tree, from_here, copy')],
     'all trees of up to five nodes (four for iteration and current nodes), any trails in full trees of width 4 or depth 2')

prop('C14', 'Editing through a range keeps its boundaries and iteration',
     r'When nodes are deleted, inserted or replaced through a range, by index, negative index, slice or as the current node, the tree changes as a list '
     r'would, iteration goes on with the next node that was there, so that editing every node in a loop sees each exactly once, and afterwards the range '
     r'has the same nodes it had plus the new ones between its boundaries. A replaced boundary node stays the boundary; what lies outside the range is not drawn in.',
     ['inputs', 'histories'], 'all shapes of trees, every range, every current node, every slice and replacement',
     'no test edits through a range; whether a boundary must move depends on where the change is relative to both boundaries and the current node',
     ['quickly/node.py'],
     [('changing nodes', 'quickly/node.py Range.__setitem__, __delitem__, node'), ('boundaries', 'quickly/node.py Range._adjust, _Level')],
     'all trees of up to four nodes, slices replaced by up to two nodes with or without a child; loops over up to three children')

prop('C15', 'Writing out has all texts in order with the strongest whitespace wanted',
     r'Writing an element gives the texts of all elements in document order, and between two texts exactly one of the whitespace preferences that apply there: '
     r'the one with the most newlines, and then the most spaces, of all of space before, after the head, between, before the tail and after of the elements that meet '
     r'there, including those of elements without text like newlines, lines and columns. A preference set on an element is of that element and its copies only.',
     ['inputs'], 'all shapes of elements with and without head, tail and children, all whitespace preferences',
     'tests compare a few outputs with the default whitespace; which preferences meet between two texts depends on the whole shape around it',
     ['quickly/dom/element.py', 'quickly/dom/util.py', 'quickly/dom/base.py'],
     [('points and whitespace', 'quickly/dom/element.py Element.points, write, concat_space'), ('collapsing', 'quickly/dom/util.py combine_text, collapse_whitespace'),
      ('preferences', 'quickly/dom/element.py _SpaceProperty')],
     'all trees of up to three elements of five kinds with every preference any two characters of newline, space and tab; up to four fragments')

prop('C16', 'Indented output has the same texts, and the indent of the open blocks',
     r'Indented output has the same texts and line breaks as plain output. Every line is indented by the start indent, plus the indent width for every block '
     r'that is open at its begin, or aligned with the designated child of that block if that began on the line the block was opened on, not farther than '
     r'the maximum. Closing delimiters at the begin of a line go back to the indent before their block, comments of three or more the same characters start at the margin, '
     r'and an indenter that is used again is not influenced by what it wrote before.',
     ['inputs'], 'all shapes of blocks, elements and comments, every choice of line breaks, all indent preferences',
     'tests have four short texts; the indent depends on which blocks are open or closed on each of the lines before',
     ['quickly/dom/indent.py', 'quickly/dom/element.py'],
     [('levels', 'quickly/dom/indent.py Indenter.create_new_block, enter_indent, leave_indent'), ('alignment', 'quickly/dom/indent.py Indenter.output_head, _IndentLevel')],
     'all trees of up to three elements of seven kinds, and six trees of up to nine; widths 0-3, start 0-2, alignment up to 0-9; texts of one line')

prop('C17', 'Writing back changes only what was modified in the DOM',
     r'The edits of a DOM with origin turn the text into one that has the texts of the DOM in order: elements that were removed are deleted, new ones are inserted in '
     r'their place with the whitespace they want, modified ones are replaced, and all else, including whitespace between text that is not modified, stays as it '
     r'was. Without modifications there are no edits. Edits are in order and do not overlap, and nothing outside a given range is deleted.',
     ['inputs', 'histories'], 'all shapes of elements, every set of elements modified, removed, replaced or added, any positions in the text, any range',
     'tests write back single changes; positions, adjacency and several changes next to each other are a product of choices',
     ['quickly/dom/element.py'],
     [('edits', 'quickly/dom/element.py Element.edits, edit'), ('texts and positions', 'quickly/dom/element.py HeadElement.head_point, BlockElement.tail_point, TextElement.head')],
     'all trees of up to three elements, every gap of 0 to 3 characters between the tokens, any range; a missing closing delimiter is left out')

prop('C18', 'Positions of elements and finding elements by position agree with the text',
     r'The position and end of an element are where its text, or that of its descendants, begins and ends in the document. The child at a position, the descendants '
     r'at a position or that contain a range, and the first descendant right or last descendant left of a position, are exactly those that follow from the positions, '
     r'also for positions in whitespace, at the border of two elements, and for trees with elements that have no text.',
     ['inputs'], 'all shapes of elements, any lengths and gaps of the texts, every position and range',
     'tests look up a few positions in one text; borders, gaps and elements without text are a product of choices',
     ['quickly/dom/element.py'],
     [('positions', 'quickly/dom/element.py Element.pos, end, HeadElement.pos, end, BlockElement.end'),
      ('finding', 'quickly/dom/element.py Element.find_child, find_descendant, find_descendants, find_descendant_left, find_descendant_right')],
     'all trees of up to four elements, tokens of length 1 or 2, gaps of 0 to 2')

prop('C19', 'An edit of a selection, cursor, node or range works on exactly that',
     r'An edit of a cursor with a selection gets a range that has every element that is completely selected and none that is not partly selected; without a selection it has the '
     r'whole document, or all from the cursor on. An edit of a node gets that node with all below it, and an edit of a range that range. The result is that of the edit, only '
     r'what was modified changes in the document, a read-only edit changes nothing, and any other type is an error.',
     ['inputs'], 'all shapes of documents, every selection and cursor position',
     'every command for the user is such an edit; tests only edit whole documents',
     ['quickly/dom/edit.py', 'quickly/dom/element.py', 'quickly/node.py'],
     [('ranges', 'quickly/dom/edit.py Edit.edit_cursor, edit_node, edit'), ('writing back', 'quickly/dom/element.py Element.edit')],
     'all trees of up to three elements, tokens of length 1 or 2, gaps of 0 to 2; the texts are stand-ins that record the changes')

prop('C20', 'Elements take the arguments of their signatures, and keep their attributes',
     r'Building a tree from a stream of elements, every element takes as children, in order, those that follow and fit one of its signatures, nothing is lost and the order of the text stays. '
     r'A child that is added to an element comes at its place in the child order, before or after the others, that do not move. Octave, accidental, octave check, duration and scaling '
     r'of notes and other music read back as they are set, are gone when deleted, and leave each other alone.',
     ['inputs', 'histories'], 'all streams of elements with any signatures, all children present or not, all values',
     'tests build single elements; which element takes which argument depends on all that come before and after it',
     ['quickly/dom/element.py', 'quickly/dom/lily.py', 'quickly/dom/util.py', 'quickly/dom/base.py'],
     [('arguments', 'quickly/dom/element.py build_tree, Element.signatures'), ('order', 'quickly/dom/element.py Element.add, child_order'),
      ('attributes', 'quickly/dom/lily.py Pitchable, Durable')],
     'up to five elements with up to two arguments in up to two signatures; eleven music elements')

prop('C21', 'A reference finds the nearest definition, also through included files',
     r'The value of a variable or markup command is that of the nearest assignment with its name before it: in its own block, the blocks around it, the document, '
     r'documents that are included there, and, in an included document, what precedes the include in the documents that include it. The scope that is returned is that of the document '
     r'with the value. Circular, missing and unfinished includes are skipped, without waiting if that was not wanted. Included files are sought next to the document, the first document and in the '
     r'include path, in that order. A name reads back as it was set, also after it is written.',
     ['inputs', 'programs'], 'all documents with assignments and includes, any place of the reference, any names, every set of files that exist or are ready',
     'tests resolve no reference at all; the order of includes, blocks and documents is a product of choices',
     ['quickly/dom/lily.py', 'quickly/dom/scope.py'],
     [('lookup', 'quickly/dom/lily.py Lookup.preceding_nodes, find_assignment, Reference'), ('files', 'quickly/dom/scope.py Scope.urls, include_scope'),
      ('names', 'quickly/dom/lily.py Identifier, IdentifierRef, make_list_node')],
     'up to three items before the reference, three documents of up to two items; urls without characters that have a meaning in urls')

prop('C22', 'Variables of blocks and values of elements read back as they are set',
     r'Variables that are set, changed and removed in a block or document in any order are there with the last value that was set, in the order they were added, and comments and other '
     r'nodes stay as they were. Attributes of headers, papers and layouts are these variables. Every simple value that is made into an element reads back with the same value and type, also after it is written out; '
     r'the version, language and file name in commands read as they are set.',
     ['histories', 'inputs'], 'all blocks with comments anywhere, all sequences of changes, all values of the supported types',
     'tests set a variable once in one block; comments around values and repeated changes are not sampled',
     ['quickly/dom/lily.py'],
     [('variables', 'quickly/dom/lily.py HandleAssignments, Assignment.get_value, _Variable'), ('values', 'quickly/dom/lily.py create_element_from_value, create_value_from_element, get_num_value, get_int_value'),
      ('commands', 'quickly/dom/lily.py Version, Language, Include, Document.version')],
     'up to three changes and variables; numbers that are not negative, as the lexer does not read negative ones')

prop('C23', 'Copies of elements are equal, complete and independent',
     'A copy of an element or tree has the same types, texts, structure and whitespace preferences, equals the original and shares nothing with it; it has the origin and the modified '
     'flags only if they are asked for, and copying an origin from another element sets the modified flag that is wanted. Two elements are equal exactly if their types, texts and descendants are, whatever their whitespace and origin. '
     'The Python code printed for an element, anywhere in a tree, makes an equal element.',
     ['inputs', 'configurations'], 'all trees of elements of all types with any texts, origins, modifications and whitespace preferences',
     'tests copy one small document; types, preferences and origins multiply',
     ['quickly/dom/element.py', 'quickly/node.py', 'quickly/dom/lily.py', 'quickly/dom/scm.py', 'quickly/dom/htm.py', 'quickly/dom/tex.py'],
     [('copying', 'quickly/dom/element.py Element.copy, copy_with_origin, copy_origin_from'), ('equality', 'quickly/node.py Node.equals, quickly/dom/element.py body_equals'),
      ('code', 'quickly/dom/element.py Element.py_dump')],
     'trees of up to three elements; every element type with one child; texts of at most two characters')

prop('C24', 'Numbers in numerals, letters and words are right and read back',
     'The roman numeral, the letters and the English words of a number are the usual ones, and read back as that number, words and numerals in any case and words also after other text. '
     'Roman letters count negative if a greater one follows; texts with other letters and numbers that have no numeral are an error.',
     ['inputs'], 'all numbers, all texts',
     'tests check a few numbers of every kind; carries between digits and exceptions like teens are not sampled',
     ['quickly/numbering.py'],
     [('roman', 'quickly/numbering.py int2roman, roman2int'), ('letters', 'quickly/numbering.py int2letter, letter2int'), ('words', 'quickly/numbering.py int2text, text2int')],
     'numerals of 1 to 2000 and some thousands above; letters up to 20000; words of all numbers under 1000, also as thousands and millions')

prop('C26', 'The pitch language and naming style of music are found and followed',
     r'Wherever one looks in a document, the pitch language is the last valid one that was set before it by \language or \include, and going through nodes the language changes at every such command, '
     'while all other nodes come by; a name or file that is no language changes nothing. Names that are written in a style are written the same way with the preferences distilled from them. The languages that have all of a number of '
     'names are all found, common ones first.',
     ['inputs', 'configurations'], 'all documents with language commands anywhere, all language names, all pitch names in all styles',
     'tests have one language command and a few names; positions, unknown languages and mixed styles are not sampled',
     ['quickly/pitch.py', 'quickly/dom/lily.py'],
     [('language', 'quickly/pitch.py PitchProcessor.find_language, follow_language, language'), ('commands', 'quickly/dom/lily.py Language, Include'),
      ('style', 'quickly/pitch.py PitchProcessor.distill_preferences'), ('guessing', 'quickly/pitch.py determine_language')],
     'trees of up to four nodes, names of languages of seven letters, two pitch names at a time')

prop('C25', 'Texts, numbers and words are written in their notation and read back',
     'A string is written in quotes with quotes and backslashes escaped, a comment, command, environment, character, data section or entity with its delimiters, text in HTML with its special characters escaped, a number in the digits of its base, '
     'and an element that stands for fixed words as one of these; reading the written tokens gives the same value back, also when the closing quote or delimiter is missing. A value that has no notation is refused.',
     ['inputs'], 'all texts, numbers and words',
     'tests write a few texts; characters that need escaping in every place, unclosed strings and comments and all words are not sampled',
     ['quickly/dom/base.py', 'quickly/dom/lily.py', 'quickly/dom/scm.py', 'quickly/dom/htm.py', 'quickly/dom/tex.py', 'quickly/dom/element.py'],
     [('strings', 'quickly/dom/base.py String; quickly/dom/lily.py String; quickly/dom/scm.py String'), ('comments', 'quickly/dom/base.py MultilineComment, SinglelineComment'),
      ('commands', 'quickly/dom/base.py BackslashCommand'), ('numbers', 'quickly/dom/scm.py Number; quickly/dom/lily.py Int, Fraction'),
      ('words', 'quickly/dom/element.py MappingElement, ToggleElement'), ('html', 'quickly/dom/htm.py Text, EntityRef, CData')],
     'texts of up to three characters, integers of up to three digits, fractions of up to two over two digits, all words of all types')

prop('C32', 'Reading a text gives its elements, complete and at their positions',
     'Reading a LilyPond, Scheme, LaTeX or HTML (lilypond-book) text gives the elements the text is made of, with their values: notes, rests, chords, durations, articulations, spanners, tweaks, commands with '
     'their arguments, blocks, assignments, property overrides, lyrics, chord names, figured bass, drums, markup, Scheme expressions, and LilyPond inside LaTeX and HTML. Nothing is left out: every token of the '
     'text belongs to exactly one head or tail, in the order of the text, and that head or tail is written as it is in the text. A comment anywhere between the words is kept and does not change what the other '
     'elements are. The reading functions without origin give equal elements that know no positions. Writing the elements gives the text (but for whitespace), and reading that again gives equal elements.',
     ['inputs'], 'all texts of the languages',
     'tests read a few documents; combinations of items, comments between any two words and the words themselves are not sampled',
     ['quickly/lang/lilypond.py', 'quickly/lang/scheme.py', 'quickly/lang/latex.py', 'quickly/lang/html.py', 'quickly/dom/read.py'],
     [('LilyPond', 'quickly/lang/lilypond.py LilyPondTransform, MusicBuilder'), ('Scheme', 'quickly/lang/scheme.py SchemeTransform'), ('LaTeX', 'quickly/lang/latex.py LatexTransform'),
      ('HTML', 'quickly/lang/html.py HtmlTransform'), ('arguments', 'quickly/dom/element.py build_tree'), ('origins', 'quickly/dom/base.py Transform, AdHocTransform; quickly/dom/element.py with_origin, read_head')],
     'documents of one of about 120 pieces between others, words of up to three symbolic characters that have the same tokens; texts with errors are outside')

prop('C33', 'Reading a document again after a change gives the same as reading it afresh',
     'When a context of the source tree changed, the transformer reads that context and those around it again and reuses what it made of all others. The document that results equals the document that is read '
     'from the whole text, with the same comments, text and positions, and what was made before does not change.',
     ['histories', 'inputs'], 'all documents and changes',
     'tests read every document once; what is left in the cache by an earlier reading is not sampled',
     ['quickly/lang/lilypond.py', 'quickly/dom/element.py'],
     [('reuse', 'quickly/lang/lilypond.py LilyPondTransform.reuse, common; MusicBuilder'), ('arguments', 'quickly/dom/element.py build_tree')],
     '76 pieces with symbolic words, any one context changed (thorough: two times)')

prop('C30', 'Markup functions make the markup command that LilyPond knows',
     'For every markup command there is a function that makes a command of exactly that name, with as many arguments as the command has, in the form LilyPond wants them (symbols and pairs quoted, texts, numbers '
     'and truth values in Scheme, coordinates as pairs of the same axis). Texts that LilyPond would not read as one word become strings. One last argument is used as it is, none or more are put in a markup list. '
     'What is written is read again as the same markup.',
     ['inputs'], 'all arguments of all markup functions',
     'tests make no markup by hand; 126 functions with arguments of five kinds are not sampled',
     ['quickly/dom/markup.py', 'quickly/dom/scm.py', 'quickly/dom/lily.py'],
     [('functions', 'quickly/dom/markup.py markup, markuplist, _create_list, _auto_arg, all functions named after a command'), ('words', 'quickly/dom/markup.py is_markup')],
     'numbers from -1000 to 1000, words of two symbolic characters; reading back with two numbers, not of fill-with-pattern (parce 0.33 fails on five arguments)')

prop('C31', 'Elements made from values stand for those values and read back the same',
     'A Python value (number, fraction, truth value, text, list, tuple, or an element) becomes the Scheme element that stands for it, also quoted; other values are refused. HTML elements made with m have the tag, '
     'attributes and contents that were given, escaped where needed; the plain text of an element has all its texts, data and entities in order, entities as the resolver says at every level. A LaTeX environment '
     'made by its name has its begin and end. What is written is read again as the same element; reading one element gives the first of a text, or None.',
     ['inputs'], 'all values and elements',
     'tests make a few elements; nested values, special characters, resolvers and empty texts are not sampled',
     ['quickly/dom/scm.py', 'quickly/dom/htm.py', 'quickly/dom/tex.py', 'quickly/dom/read.py'],
     [('Scheme', 'quickly/dom/scm.py create_element_from_value, q, qq, uq, i, p, s, Number'), ('HTML', 'quickly/dom/htm.py m, Element.to_plaintext, Text, CData, Comment'),
      ('LaTeX', 'quickly/dom/tex.py Environment.with_name'), ('one element', 'quickly/dom/read.py scm, lily, tex, htm')],
     'Scheme values one level deep (thorough: two) with up to three items; HTML elements two levels deep with up to three attributes; texts of one to three symbolic characters')

prop('C27', 'Line breaks, parts that are not understood, version and comments of a text',
     'Elements that were read can be given the line breaks of the text they come from: lines that were broken in the text are broken in what is written, up to the number of blank lines that is wanted, and no others, '
     'also if brackets are not closed or texts span lines. Parts of a text that were not understood are written as they are in the text once they are replaced. The version is the numbers of the first version command. '
     'Comments are taken away before nodes, and only there.',
     ['inputs'], 'all texts',
     'tests do not use these; gaps around multi-line texts, missing brackets and several versions are not sampled',
     ['quickly/dom/util.py'],
     [('line breaks', 'quickly/dom/util.py add_newlines'), ('unknown', 'quickly/dom/util.py replace_unknown'), ('version', 'quickly/dom/util.py lilypond_version'), ('comments', 'quickly/dom/util.py pop_comments, skip_comments')],
     'seven texts of up to 14 words with two arbitrary gaps; five HTML texts; versions of up to three symbolic numbers')

prop('C28', 'The other end of a slur, beam or other spanner',
     'From the start of a spanner the first stop after it is found, and from the stop the first start before it, of the same kind and with an equal spanner id (or both without), in the same assignment, context or score; '
     'nowhere else. It does not matter what music is in between, or whether directions, tweaks or comments are at the spanner. With a limit the same end is found or none, none only if it is farther away.',
     ['inputs'], 'all music with spanners',
     'one example in a docstring; ids, nesting, tweaks and several spanners at the same time are not sampled',
     ['quickly/dom/lily.py'],
     [('spanners', 'quickly/dom/lily.py Spanner.find_parallel, SpannerId'), ('nodes', 'quickly/node.py Node.forward, Node.backward')],
     'four (thorough: five) spanner ends in ten shapes of music, with symbolic ids; no contexts inside contexts')

prop('C29', 'The musical time at the cursor and of a selection in a text',
     'For a cursor in music the time is that of all music before it, at the end of a list too: the music it is in is the topmost expression around it. For a selection of music in a list it is the sum of what is selected; '
     'without a selection, or if there is no music in it, there is none.',
     ['inputs'], 'all texts and cursors',
     'tests do not use cursors; every place in a text is a case',
     ['quickly/time.py', 'quickly/dom/element.py'],
     [('cursor', 'quickly/time.py Time.cursor_position, Time.cursor_duration, Time._music_child'), ('time', 'quickly/time.py Time.position, Time.duration, TimeContext')],
     '15 texts with symbolic durations, a symbolic cursor in a list, not inside a note or command')

prop('C34', 'Functions change a document as they change the music in it',
     'Transposing, changing to absolute and to relative pitches, and changing, copying and pasting rhythms give the same whether they are given a document, a cursor, a range or an element: the text of the document is '
     'changed to the text of the changed music, and nothing else in it, so that reading it again gives the changed music. Given a selection, nothing outside it is changed, and only music that starts in it is made absolute or relative; relative music is not made relative again. Functions that copy change nothing.',
     ['inputs'], 'all documents',
     'tests change elements only, or one document; comments, line breaks and other parts of documents are not sampled',
     ['quickly/transpose.py', 'quickly/relative.py', 'quickly/rhythm.py', 'quickly/dom/edit.py', 'quickly/dom/element.py'],
     [('functions', 'quickly/transpose.py transpose; quickly/relative.py rel2abs, abs2rel; quickly/rhythm.py remove, remove_scaling, remove_fraction_scaling, explicit, implicit, transform, copy, paste'),
      ('edit', 'quickly/dom/edit.py Edit; quickly/dom/element.py Element.edit')],
     'seven texts with symbolic note names, octaves or durations, 14 functions')

prop('C35', 'Pitches and properties compare, copy and combine as values',
     'Pitches are equal if octave, note and alteration are, ordered by octave, then note, then alteration, and never equal to other values; a copy is equal and independent; a formatted pitch is its Dutch name with the octave, '
     'or a question mark. Properties give None for a name that is not there, can be changed, deleted, compared and shown, and added to others, of which the values count, None too.',
     ['inputs'], 'all values',
     'tests compare no pitches and use no properties',
     ['quickly/pitch.py', 'quickly/datatypes.py'],
     [('pitches', 'quickly/pitch.py Pitch'), ('properties', 'quickly/datatypes.py Properties')],
     'octaves from -9 to 9, quarter tone alterations up to two whole tones; properties with three names')

NOT_APPLICABLE = []

# what is checked against what, for DESIGN.md
METHOD = {
    'C01': 'Real `Transposer` on three symbolic pitches; oracle: steps are note + 7*octave, height is octave*6 + scale[note] + alter, both compared exactly by the solver.',
    'C02': 'Sums, differences and inverses of real `Transposer`s on a symbolic pitch; oracle: the same transposers one after the other, and the height arithmetic of C01.',
    'C03': 'Documents are built from real DOM nodes with symbolic pitches; `Transpose` edits them. Oracle: an evaluator of the sounding pitches of the tree before and after, written in the harness from LilyPond rules.',
    'C04': 'Real `Rel2abs` and `Abs2rel` on trees with symbolic notes and octaves; oracle: the evaluator of sounding pitches, and for the round trip the notes themselves.',
    'C05': 'Real `PitchProcessor` for every language and symbolic preferences, notes, alterations and octaves; oracle: reading back, and the style tables of LilyPond.',
    'C06': 'Real `Pitch.from_midi`, `key.accidentals` and `KeySignature` on symbolic keys, tonics and modes; oracle: semitone arithmetic and interval patterns.',
    'C07': 'Real `duration` functions and nodes on symbolic logs, dots, values and texts; oracle: 2**-log * (2 - 2**-dots) as exact rationals.',
    'C08': 'Real `Transform` sums and commands; oracle: exact rational arithmetic and applying one after the other.',
    'C09': 'Sequences of real nodes with symbolic durations; oracle: an evaluator of effective durations before and after the edit.',
    'C10': 'As C09; the oracle also says for each item what must be written.',
    'C11': 'Nested real nodes with symbolic durations and scalings; oracle: a recursive length that passes transforms down and durations along.',
    'C12': 'All shapes of trees, matching as symbolic booleans; oracle: index arithmetic on a list of depths, and Python lists for changes.',
    'C13': 'All shapes, any start, end and current node; oracle: the interval of document order numbers.',
    'C14': 'All shapes and edits; oracle: a list edited the same way, and the interval of document order with new nodes counted in.',
    'C15': 'All shapes of elements, symbolic whitespace preferences; oracle: texts in order, and the maximum of the demands in each gap.',
    'C16': 'All shapes of blocks with symbolic line breaks and preferences; oracle: an indenter that computes for every line which blocks are open.',
    'C17': 'All shapes with symbolic positions of the texts; oracle: the expected new text, piece by piece.',
    'C18': 'All shapes of trees with symbolic token positions; oracle: minimum and maximum of the token positions, and the definition of each search over all nodes.',
    'C19': 'Real `Edit` on a recording cursor and document with symbolic positions; oracle: which elements are selected by comparing positions.',
    'C20': 'Real `build_tree` on stand-in elements whose signatures match symbolically; real music elements with symbolic values; oracle: taking arguments from left to right, and a dict of the attributes.',
    'C21': 'Real documents with symbolic names that include each other, stand-ins for files that exist or are ready; oracle: the list of assignments that are visible, nearest first, of which the first with an equal name must be it.',
    'C22': 'Real blocks with symbolic names and values; oracle: an ordered list of names and values.',
    'C23': 'Real elements with symbolic texts; oracle: the types, texts and depths of both trees, and evaluating the printed code.',
    'C24': 'Real `numbering` functions on symbolic numbers and texts; oracle: positional arithmetic, and the digits of the number one by one.',
    'C26': 'Real `PitchProcessor` on trees of commands with symbolic names; oracle: the last of the commands before a node, and for names what the real code writes with the preferences it found.',
    'C25': 'Real element types on symbolic texts and numbers; oracle: the delimiters and escapes of the languages, positional arithmetic; replays and witnesses compare with the tokens of the real lexer.',
    'C32': 'Real transforms and element types on texts with symbolic words, on the tokens the real lexer makes of a sample; oracle: the elements, made with their constructors, that each piece stands for; replays and witnesses run the real lexer.',
    'C33': 'Real transforms with a real Transformer from which a context and its parents are removed, on texts with symbolic words; oracle: the elements that each piece stands for.',
    'C30': 'Real markup functions on symbolic numbers and texts; oracle: a table of the argument forms of the LilyPond manual and the argument counts of the lexer; real readers on the written text.',
    'C31': 'Real constructors and readers on symbolic numbers and texts; oracle: elements built one by one, the escaped text and the plain text computed from the inputs.',
    'C27': 'Real texts with arbitrary gaps and symbolic words are read and get their line breaks; oracle: the newlines between the positions in the text, or what the elements demand; texts and numbers of the harness.',
    'C28': 'Music of every shape with spanners of which kind, end and (symbolic) id are arbitrary, and texts that are read; oracle: the first that fits in a flat list of the ends in document order.',
    'C29': 'Real texts with symbolic durations, a symbolic cursor or selection; oracle: an evaluator of the music that the harness wrote in the text, by position.',
    'C34': 'Every function on a document that records its changes, and on elements read from the same symbolic text; oracle: both must be the same, and the changed text read again.',
    'C35': 'Real `Pitch` and `Properties` with symbolic attributes; oracle: lexicographic order as a formula, and a dict with the same changes.',
}
