From fda76649281da1d9152bf435854c8bd32532e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 01/77] fix: make sums and differences of Transposers usable
 and correct

---
 quickly/transpose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index f83112f..433447e 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -89,6 +89,7 @@ class Transposer(AbstractTransposer):
 
     def __add__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps + other.steps, 7)
         t.octave = self.octave + other.octave + doct
         t.alter = self.alter + other.alter - doct * 6
@@ -96,9 +97,10 @@ class Transposer(AbstractTransposer):
 
     def __sub__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps - other.steps, 7)
         t.octave = self.octave - other.octave + doct
-        t.alter = self.alter - other.alter + doct * 6
+        t.alter = self.alter - other.alter - doct * 6
         return t
 
 
-- 
2.43.0


From 10165fac3d528a335153a304e5cc5abc22b5b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 02/77] fix: reading back a Scheme bool, number or string value

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3d0a71f..6e8b898 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3449,7 +3449,7 @@ def create_value_from_element(node):
         if len(node) == 1:
             node = node[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
-                return node.value
+                return node.head
 
 
 def get_num_value(node):
-- 
2.43.0


From 90c92b1fbfcbc9aecdd77cae3315b13ce82c6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 03/77] fix: IdentifierRef.with_name() lacked the required head
 value

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6e8b898..85a14ad 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1092,7 +1092,7 @@ class IdentifierRef(base.BackslashCommand, Reference):
         simple symbol.
 
         """
-        v = cls()
+        v = cls('')
         v.set_name(name)
         return v
 
-- 
2.43.0


From 2671e0298e8f3f91989337eedc9383455d0d7117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 04/77] fix: repr() of a KeySignature

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 0017ce5..3ee014c 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -226,7 +226,7 @@ class KeySignature:
         self.flats = pitch.MAJOR_FLATS
 
     def __repr__(self):
-        p = pitch.Pitch(self.note, self.alter)
+        p = pitch.Pitch(-1, self.note, self.alter)
         return "<{} note,alter={},{} ({}) mode={}>".format(type(self).__name__,
             self.note, self.alter, p, self.mode)
 
-- 
2.43.0


From 3a2edbc2a1981f7584875379c277043fb7132b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 05/77] fix: a Scheme multiline comment ends with !#

---
 quickly/dom/scm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index cd887d5..55d6c2c 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -89,11 +89,11 @@ class MultilineComment(base.MultilineComment):
     """A multiline comment in Scheme after ``#!``."""
     @classmethod
     def read_head(cls, origin):
-        end = -1 if origin[-1] == "#!" else None
+        end = -1 if origin[-1] == "!#" else None
         return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
-        return '#!{}#!'.format(self.head)
+        return '#!{}!#'.format(self.head)
 
 
 class Char(element.TextElement):
-- 
2.43.0


From b99b2e8e1aeb9284886b8d1a8cdbdd77d8b53cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 06/77] fix: copying an element lost its individual whitespace
 preferences

---
 quickly/dom/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index aac57fa..90a163b 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -175,6 +175,10 @@ class Element(Node, metaclass=ElementType):
         for attribute, value in attrs.items():
             setattr(self, attribute, value)
 
+    def _space_attrs(self):
+        """Return a dict with the space preferences that differ from the default."""
+        return {'space_' + name: value for name, value in getattr(self, '_space', {}).items()}
+
     def copy(self, with_children=True):
         """Copy the node, without the origin.
 
@@ -183,7 +187,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return type(self)(*children, **getattr(self, '_spacing', {}))
+        return type(self)(*children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         """Copy the node, with origin if available.
@@ -193,7 +197,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = type(self)(*children, **getattr(self, '_spacing', {}))
+        copy = type(self)(*children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
@@ -920,11 +924,11 @@ class TextElement(HeadElement):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        return self._factory(self.head, *children, **self._space_attrs())
 
     def copy_with_origin(self, with_children=True):
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        copy = self._factory(self.head, *children, **self._space_attrs())
         copy.copy_origin_from(self)
         return copy
 
-- 
2.43.0


From af651ca35f7fa3fd19883a180fc80aa3a1fac679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 07/77] fix: the length of a reference to an undefined variable
 is 0

---
 quickly/time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 05b9a0b..8d8c160 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -352,9 +352,12 @@ class TimeContext:
         Returns 0 if the node can't be found or is no music.
 
         """
-        node, scope = node.get_value_with_scope(self.time.scope, self.time.wait)
+        scope = self.time.scope
         while isinstance(node, lily.Reference):
-            node, scope = node.get_value_with_scope(scope, self.time.wait)
+            result = node.get_value_with_scope(scope, self.time.wait)
+            if not result:
+                return 0
+            node, scope = result
         if isinstance(node, lily.Music):
             time = type(self.time)(scope, self.time.wait)
             return node.time_length(self.enter(node, time), None)
-- 
2.43.0


From 7cea230e695d85f0d0c6e75f7379f5a3bf0d9f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 08/77] fix: Key.key_signature() with a variable as mode

---
 quickly/dom/lily.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 85a14ad..4ce87f8 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2160,8 +2160,10 @@ class Key(element.HeadElement, Music):
                 elif isinstance(n, Mode):
                     mode = n.head
                 elif isinstance(n, IdentifierRef):
-                    scope, n = n.get_value_with_scope(scope, wait)
-                    continue
+                    result = n.get_value_with_scope(scope, wait)
+                    if result:
+                        n, scope = result
+                        continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
                         mode = [n.head for n in n / scm.Number]
-- 
2.43.0


From 756d3196e2da07568b341c305d4da90a59c3223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 09/77] fix: rhythm edits wrote durations to the notes inside a
 chord

---
 quickly/rhythm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9df764c..d527ca4 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -47,6 +47,9 @@ class EditRhythm(edit.Edit):
                 # as of LilyPond 2.23.6)
                 if isinstance(n, lily.Skip) and not any(n / lily.Duration):
                     continue
+                # skip notes inside a chord, they can't have a duration
+                if isinstance(n.parent, lily.ChordBody):
+                    continue
                 yield n
 
     @staticmethod
-- 
2.43.0


From 51f74643daf8d56f47c42cbcd33a3a2ce5a5c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 10/77] fix: rhythm edits looked no further than a comment for
 a bare duration

---
 quickly/rhythm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index d527ca4..276019c 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -69,12 +69,12 @@ class EditRhythm(edit.Edit):
             return False
         elif any(node / lily.Articulations):
             return True
-        n = node.right_sibling()
-        if n:
+        for n in util.skip_comments(node.right_siblings()):
             if isinstance(n, lily.Unpitched):
                 return False
             elif isinstance(n, lily.LyricItem) and n.duration_required:
                 return False
+            break
         return True
 
     def edit_range(self, r):
-- 
2.43.0


From 37dc1ada83710dacdd86ca948174bce7c71a8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 11/77] fix: Rel2abs converted unrelated \relative expressions
 for every note

---
 quickly/relative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e969e84..df4148a 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -70,8 +70,8 @@ class Rel2abs(edit.Edit):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     # music in markup expressions?
-                    for n in node.instances_of(lily.Relative):
-                        make_absolute(n)
+                    for rel in n.instances_of(lily.Relative):
+                        make_absolute(rel)
                 elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
                     yield n
                 elif isinstance(n, lily.Relative):
-- 
2.43.0


From e396737b958a0609ba5314f8ae5d214a49f322c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 12/77] fix: Rel2abs skipped the note after an \octaveCheck it
 removed

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index df4148a..a797474 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -66,7 +66,7 @@ class Rel2abs(edit.Edit):
 
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
-            for n in processor.follow_language(nodes):
+            for n in processor.follow_language(list(nodes)):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     # music in markup expressions?
-- 
2.43.0


From 760f3c0682203e0960790238cca1db644ee4627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 13/77] fix: Abs2rel left the notes of chords absolute

---
 quickly/relative.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index a797474..0c63dd8 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -194,7 +194,7 @@ class Abs2rel(edit.Edit):
             """Find MusicList nodes, and if they contain notes, make relative."""
             for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
                 if isinstance(n, lily.MusicList):
-                    if any(n / lily.Pitchable) and r.in_range():
+                    if any(n / (lily.Pitchable, lily.Chord)) and r.in_range():
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
                         abs2rel()
@@ -248,8 +248,9 @@ class Abs2rel(edit.Edit):
                     last_pitch = relative_note(n, last_pitch)
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
-                    for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, last_pitch))
+                    for body in n / lily.ChordBody:
+                        for note in body / lily.Pitchable:
+                            stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
                     lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-- 
2.43.0


From 1466a215fee57eea51da0612ca50849741888050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 14/77] fix: Abs2rel converted already relative music and
 octave checks

---
 quickly/relative.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 0c63dd8..b098e29 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -252,8 +252,12 @@ class Abs2rel(edit.Edit):
                         for note in body / lily.Pitchable:
                             stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
+                elif isinstance(n, lily.OctaveCheck):
+                    # the checked pitch is always absolute
+                    for note in n / lily.Pitchable:
+                        last_pitch = processor.read_node(note)
                 elif isinstance(n, (
-                    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
+                    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed, lily.Relative,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
                     pass
-- 
2.43.0


From 4a143789db658a43a2ddd7336c50cb1ffb7d0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 15/77] fix: \fixed music moved an octave when its reference
 pitch crossed one

---
 quickly/transpose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 433447e..6a95fd1 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -202,9 +202,10 @@ class Transpose(edit.Edit):
             for note in nodes:
                 if isinstance(note, lily.Pitchable) and writable(note):
                     # we may change this note, modify the octave
-                    offset = self.transposer.octave
                     with processor.process(note) as p:
+                        octave = p.octave
                         self.transposer.transpose(p)
+                        offset = p.octave - octave
                 else:
                     offset = 0
                 for p in transpose_pitches(nodes):
-- 
2.43.0


From cac743548c12aa37a6865ff51b62ef696753d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 16/77] fix: transposing a selection inside \relative treated
 the pitches as absolute

---
 quickly/transpose.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 6a95fd1..9ac89ee 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -123,6 +123,10 @@ class Transpose(edit.Edit):
     You may change these attributes after instantiation.
 
     """
+    #: The range is always created from the root node, because the meaning of
+    #: a pitch depends on its ancestors (e.g. ``\relative``).
+    range_from_root = True
+
     def __init__(self, transposer, processor=None, relative_first_pitch_absolute=None):
         #: The :class:`Transposer` that can transpose pitches.
         self.transposer = transposer
-- 
2.43.0


From 6774f4408c909da6d12517d1a6585cc50e332877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 17/77] fix: \transpose inside \relative: its music is not
 relative to the outside

---
 quickly/transpose.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 9ac89ee..9d1c01d 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -172,7 +172,10 @@ class Transpose(edit.Edit):
                     pitches, rest = n[:2], n[2:]
                     for p in transpose_pitches(pitches):
                         p.octave -= self.transposer.octave
-                    yield from notes(rest)
+                    if relative_mode:
+                        transpose_absolute(rest)    # not affected by \relative
+                    else:
+                        yield from notes(rest)
                 elif isinstance(n, (lily.Transposition, lily.StringTuning)):
                     pass    # don't change child nodes
                 elif relative_mode and isinstance(n, (lily.Chord, lily.OctaveCheck)):
-- 
2.43.0


From e5ec8e9dda588f7a699b36f2ad3ae2da38add502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 18/77] fix: the chromatic scale of b-doublesharp was not
 rotated

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 3ee014c..99e5cc5 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -166,7 +166,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2)
+    semitones = int(alter * 2) % 12
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
-- 
2.43.0


From 6cbfdd6b8e1393569097216dedacf803693ec90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 19/77] fix: distill_preferences judged english names by the
 note instead of the alteration

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fd63359..856439b 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -516,7 +516,7 @@ class PitchProcessor:
                 elif language == "english":
                     if '-' in name:
                         prefer_long = True
-                    elif not prefer_long and pnames[name][1] in {-1, -0.5, 0.5, 1}:
+                    elif not prefer_long and pnames[name][2] in {-1, -0.5, 0.5, 1}:
                         prefer_long = False
                 elif language == "français":
                     if 'é' in name:
-- 
2.43.0


From 1ce1a919a003ce65bb813e3ab5bea23c51c682b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 20/77] fix: prefer_classic was inverted for norsk pitch names

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 856439b..0a2e9db 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -612,7 +612,7 @@ class PitchProcessor:
                 return subset[0]
             names = subset
         for name in names:
-            if self.prefer_classic == ('ee' in name or 'ae' in name):
+            if self.prefer_classic == (not ('ee' in name or 'ae' in name)):
                 return name
 
     @_suitable("suomi")
-- 
2.43.0


From 3d54ed4f2e0057b3a940511c80fa80ceab7a55a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 21/77] =?UTF-8?q?fix:=20the=20catal=C3=A0=20pitch=20names?=
 =?UTF-8?q?=20ignored=20prefer=5Fdeprecated?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 quickly/pitch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 0a2e9db..fc54160 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -565,6 +565,7 @@ class PitchProcessor:
                 return name
 
     @_suitable("catalan")
+    @_suitable("català")
     def _catalan(self, names):
         for name in names:
             if self.prefer_deprecated == name.endswith('s'):
-- 
2.43.0


From 3182c4189fbb3a0755c32c53c365caf6993e0c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 22/77] fix: prefer_x wrote long english names for notes that
 have no name with x

---
 quickly/pitch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fc54160..6b23ea4 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -583,9 +583,11 @@ class PitchProcessor:
             for name in names:
                 if "-" in name:
                     return name
+        names = [name for name in names if "-" not in name]
         for name in names:
-            if "-" not in name and self.prefer_x == name.endswith('x'):
+            if self.prefer_x == name.endswith('x'):
                 return name
+        return names[-1]
 
     @_suitable("espanol")
     @_suitable("español")
-- 
2.43.0


From ea54ad2057056892dd6a19aef84f0a312bdad8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 23/77] fix: Abs2rel made the music in \fixed relative

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index b098e29..8945341 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -192,7 +192,7 @@ class Abs2rel(edit.Edit):
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-            for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
+            for n in r.instances_of((lily.MusicList, lily.Relative, lily.Fixed, lily.ChordMode)):
                 if isinstance(n, lily.MusicList):
                     if any(n / (lily.Pitchable, lily.Chord)) and r.in_range():
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
-- 
2.43.0


From 58cc094de8e37e820935a06f5b4bf3c49d479637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 24/77] fix: duration.from_string accepted numbers that are no
 duration

---
 quickly/duration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/duration.py b/quickly/duration.py
index 02b1f66..bb71fb8 100644
--- a/quickly/duration.py
+++ b/quickly/duration.py
@@ -223,9 +223,13 @@ def from_string(text, dotcount=None):
         dotcount = text.count('.')
     text = text.strip(' \t.')
     try:
-        log = int(text).bit_length() - 1
+        value = int(text)
     except ValueError:
         log = -1 - NAMED_DURATIONS.index(text.lstrip('\\'))
+    else:
+        log = value.bit_length() - 1
+        if value != 1 << max(0, log):
+            raise ValueError("invalid duration: {}".format(text))
     return duration(log, dotcount)
 
 
-- 
2.43.0


From eea9975bff6591daf02eb0be581620fec42d3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 25/77] fix: rhythm edits of a range failed when removing the
 last node of it

---
 quickly/rhythm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 276019c..a252b36 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -41,7 +41,8 @@ class EditRhythm(edit.Edit):
     @staticmethod
     def durables(r):
         """Yield all Durable instances in range."""
-        for n in r.nodes():
+        # list all nodes first, editing may remove nodes on the range boundary
+        for n in list(r.nodes()):
             if isinstance(n, lily.Durable):
                 # skip \skip with music instead of duration (which is legal
                 # as of LilyPond 2.23.6)
@@ -222,7 +223,8 @@ class RhythmTransform(EditRhythm):
 
     def edit_range(self, r):
         """Transform all durations."""
-        for n in r.nodes():
+        # list all nodes first, editing may remove nodes on the range boundary
+        for n in list(r.nodes()):
             if isinstance(n, lily.HandleDuration):
                 dur = n.duration_scaling
                 if dur:
-- 
2.43.0


From f43ded185693c559696d17b0a91a8362e62e990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 26/77] fix: CopyRhythm took the duration of a \skip for the
 next note

---
 quickly/rhythm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index a252b36..d55d60e 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -267,10 +267,13 @@ class CopyRhythm(EditRhythm):
                 for n in self.durables(r):
                     dur = n.duration_scaling
                     if dur:
-                        prev = dur
-                    elif not prev:
-                        prev = lily.previous_duration(n)
-                    yield prev
+                        yield dur
+                        if n.duration_sets_previous:
+                            prev = dur
+                    else:
+                        if not prev:
+                            prev = lily.previous_duration(n)
+                        yield prev
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
 
-- 
2.43.0


From cca7b25aec4ba52b4b8a0177b52e8965cff7b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 27/77] fix: transposing octave checks in \relative music with
 a start pitch over an octave

---
 quickly/transpose.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 9d1c01d..7f0ee58 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -256,8 +256,6 @@ class Transpose(edit.Edit):
                     with processor.process(start_note) as p:
                         self.transposer.transpose(p)
                     last_pitch.transposed = p
-                    last_pitch.octave -= self.transposer.octave
-                    last_pitch.transposed.octave -= self.transposer.octave
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
 
-- 
2.43.0


From 093989cbbb19b78c64bc04dbf003dd3b3dbeba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 28/77] fix: Time.duration applied a transform twice when the
 nodes are siblings in a tuplet

---
 quickly/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/time.py b/quickly/time.py
index 8d8c160..ad53306 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -221,9 +221,9 @@ class Time:
         # common part, just follow transform
         index = -1
         for index, (pos, end) in enumerate(zip(start_trail, end_trail)):
-            context = context.enter(node)
             if pos != end:
                 break
+            context = context.enter(node)
             node = node[pos]
         else:
             index += 1
-- 
2.43.0


From 2eb63d33a2195ddd942e37d7608f522506cc04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 29/77] fix: setting the scaling of a duration with several
 scalings

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 4ce87f8..f7a8355 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -148,7 +148,7 @@ class HandleDuration(element.Element):
     @scaling.setter
     def scaling(self, value):
         for d in self / Duration:
-            scaling = d / DurationScaling
+            scaling = iter(list(d / DurationScaling))
             for s in scaling:
                 if value in (1, None):
                     d.remove(s)
-- 
2.43.0


From 9471aaf3680296eb192bc1aca62184766d9b9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 30/77] fix: Range contained nodes that are partly after the
 end of the range

---
 quickly/node.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index f7bfa95..9eaa4b1 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -827,8 +827,15 @@ class Range(Common):
             return self._stack[0].start_in_range() and self._stack[0].end_in_range()
         elif self.start_trail and trail < self.start_trail:
             return False
-        elif self.end_trail is not None and trail > self.end_trail:
-            return False
+        elif self.end_trail is not None:
+            if trail > self.end_trail:
+                return False
+            elif trail != self.end_trail and trail == self.end_trail[:len(trail)]:
+                # an ancestor of the end node, nothing may be sliced from the end
+                n = self.ancestor()
+                for i in trail:
+                    n = n[i]
+                return self._Level(n, None, self.end_trail, len(trail)).end_in_range()
         return True
 
     def _trail_intersects(self, trail):
-- 
2.43.0


From 0ac3fd7613f1b1c6e89a2d66b7f4b16e393c1d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 31/77] fix: empty Ranges were true and not empty when made
 from the root or with an ancestor as end node

---
 quickly/node.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 9eaa4b1..078b531 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -704,6 +704,8 @@ class Range(Common):
         #: (Do not modify from the outside.)
         self.end_trail = end_trail
         self._stack = [self._Level(ancestor, start_trail, end_trail)]
+        if start_trail and end_trail is not None and end_trail < start_trail:
+            self._stack[0].end = -1     # the range is empty
 
     def __repr__(self):
         def fields():
@@ -845,8 +847,10 @@ class Range(Common):
         of :meth:`_get_trail`).
 
         """
-        return (not self.start_trail or trail >= self.start_trail[:len(trail)]) \
-           and (not self.end_trail or trail <= self.end_trail[:len(trail)])
+        if not trail:
+            return True
+        return bool(self) and (not self.start_trail or trail >= self.start_trail[:len(trail)]) \
+           and (self.end_trail is None or trail <= self.end_trail[:len(trail)])
 
     def intersects(self, node):
         """Return True if the node is partially or completely in our range.
@@ -1143,6 +1147,8 @@ class Range(Common):
         of the just yielded node will not be yielded.
 
         """
+        if not self:
+            return
         self._goto_trail(self.start_trail)
         if self.start_trail:
             node = self.node
-- 
2.43.0


From 3089bba54bb430de55ea2d5ac0e2d09a76c785c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 32/77] fix: Range boundaries and iteration after deleting,
 inserting or replacing nodes

---
 quickly/node.py | 101 +++++++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 53 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 078b531..290b0ff 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -753,10 +753,12 @@ class Range(Common):
         return cls(ancestor, start_trail, end_trail)
 
     def start_node(self):
-        """The start node, if specified."""
+        """The start node, if specified (and not deleted as the last node)."""
         if self.start_trail is not None:
             n = self.ancestor()
             for i in self.start_trail:
+                if i >= len(n):
+                    return
                 n = n[i]
             return n
 
@@ -770,7 +772,8 @@ class Range(Common):
 
     def copy(self):
         """Return a clean copy of this Range, initialized at the same ancestor."""
-        return type(self)(self.ancestor(), self.start_trail, self.end_trail)
+        copy = lambda trail: None if trail is None else list(trail)
+        return type(self)(self.ancestor(), copy(self.start_trail), copy(self.end_trail))
 
     def from_here(self):
         """Return a new Range, starting at the current :attr:`node`.
@@ -788,7 +791,8 @@ class Range(Common):
     def __bool__(self):
         """False if the range is empty."""
         level = self._stack[0]
-        return level.start <= level.end
+        return level.start <= level.end and not (self.start_trail
+            and self.end_trail is not None and self.end_trail < self.start_trail)
 
     def __contains__(self, node):
         """Return True if the node is completely within this range.
@@ -900,60 +904,50 @@ class Range(Common):
                 raise ValueError("can't use step other than 1 in slice")
             value = tuple(value)
             index, end, _ = i.indices(len(level.node))
-            removed = end - index
+            removed = max(0, end - index)
             added = len(value)
             length = len(level.node) + added - removed
 
-            if length == 0:
-                # node has become empty
-                level.start = 0
-                level.index = -1
-                level.end = -1
-                if level.start_trail:
-                    level.start_trail[level.depth:] = [0]
-                if level.end_trail:
-                    del level.end_trail[level.depth:]
-            else:
-                # adjust start boundary if needed
-                if index <= level.start:
-                    if index + removed > level.start:
+            # adjust start boundary if needed
+            if adjust_start and index <= level.start:
+                if index + removed > level.start:
+                    # deleted node was on the start trail, truncate
+                    if index < level.start:
                         level.start = index + added
-                        if adjust_start:
-                            # deleted node was on the start trail, truncate
-                            del level.start_trail[level.depth:]
-                            if 0 < level.start < length:
-                                level.start_trail.append(level.start)
-                    else:
-                        level.start += added - removed
-                        if adjust_start:
-                            level.start_trail[level.depth] = level.start
-
-                # adjust end boundary
-                if index <= level.end:
-                    if index + removed > level.end:
-                        level.end = index + added
-                        if adjust_end:
-                            # deleted node was on the end trail, truncate
-                            del level.end_trail[level.depth:]
-                            if level.end < length:
-                                level.end_trail.append(level.end)
-                    else:
-                        level.end += added - removed
-                        if adjust_end:
-                            level.end_trail[level.depth] = level.end
-                elif length and level.end == -1 and level.end_trail is None:
-                    # end can be -1 if node was empty or because of empty end trail,
-                    # in this case it was because the node was empty, just move the end
-                    level.end = length - 1
-
-                # adjust level index
-                if index <= level.index:
-                    if index + removed > level.index:
-                        level.index = index + added
-                    else:
-                        level.index += added - removed
+                    del level.start_trail[level.depth+1:]
+                else:
+                    level.start += added - removed
+                level.start_trail[level.depth] = level.start
+
+            # adjust end boundary
+            if level.end_trail is None:
+                level.end = length - 1
+            elif adjust_end and index <= level.end:
+                if index + removed > level.end:
+                    # deleted node was on the end trail, truncate
+                    level.end = index + added - 1
+                    del level.end_trail[level.depth:]
+                    if level.end > -1:
+                        level.end_trail.append(level.end)
+                        if not added:
+                            # the range now ends after the preceding node
+                            n = level.node[level.end]
+                            while len(n):
+                                level.end_trail.append(len(n) - 1)
+                                n = n[-1]
+                else:
+                    level.end += added - removed
+                    level.end_trail[level.depth] = level.end
+
+            # adjust level index, iteration continues after the new nodes
+            if index <= level.index:
+                if index + removed > level.index:
+                    level.index = index + added - 1
+                else:
+                    level.index += added - removed
         else:
             # just replace node at i
+            i = range(len(level.node))[i]
             if adjust_start and i == level.start:
                 del level.start_trail[level.depth+1:]
             if adjust_end and i == level.end:
@@ -964,6 +958,7 @@ class Range(Common):
     def __delitem__(self, i):
         """Delete Node(s) at index or slice. Slice step must be None or 1."""
         if not isinstance(i, slice):
+            i = range(len(self._stack[-1].node))[i]
             i = slice(i, i+1)
         self[i] = ()
 
@@ -1150,8 +1145,8 @@ class Range(Common):
         if not self:
             return
         self._goto_trail(self.start_trail)
-        if self.start_trail:
-            node = self.node
+        node = self.start_node()
+        if self.start_trail and node:
             if (yield node) is not False and len(node):
                 yield from self.descendants()
         yield from self.forward()
-- 
2.43.0


From 18c73987883e73f7ed6719d3fcb616e9b37f3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 33/77] fix: Element.edits changed whitespace between
 unmodified text and deleted text outside the range

---
 quickly/dom/element.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 90a163b..ca78001 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -627,9 +627,15 @@ class Element(Node, metaclass=ElementType):
         text outside the specified range will be deleted.
 
         """
-        pos = context.pos if start is None else start
-        end = context.end if end is None else end
+        if start is None:
+            start = context.pos
+        if end is None:
+            end = context.end
         tokens = context.tokens()
+        pos = self.pos
+        if pos is None or pos > start:
+            pos = start
+        changed = False     # True if the text right before pos is new or modified
         insert_after = ''
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
@@ -637,8 +643,13 @@ class Element(Node, metaclass=ElementType):
                 # new element
                 text = point.text()
                 if text:
+                    if not pos and not changed:
+                        space = ''  # at the very start no whitespace is needed
                     yield pos, pos, space + text
                     insert_after = point.space_after
+                    changed = True
+                else:
+                    insert_after = collapse_whitespace((space, point.space_after))
             else:
                 # existing element
                 if point.pos > pos:
@@ -649,19 +660,28 @@ class Element(Node, metaclass=ElementType):
                             pos = t.pos
                             break
                         del_end = t.end
-                    if del_end > del_pos:
+                    del_pos = max(del_pos, start)
+                    if min(del_end, end) > del_pos:
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
-                        yield del_pos, del_end, space
-                elif space:
+                        yield del_pos, min(del_end, end), space
+                elif space and (changed or (point.modified and point.pos > start)):
+                    # adjacent text, preserve that if it did not change
                     yield point.pos, point.pos, space
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
                 pos = point.end
                 insert_after = point.space_after
-        if pos < end:
-            yield pos, end, ''
+                changed = point.modified
+        # see if old content needs to be deleted at the end
+        pos = del_end = max(pos, start)
+        for t in tokens:
+            if t.pos >= end:
+                break
+            del_end = t.end
+        if min(del_end, end) > pos:
+            yield pos, min(del_end, end), ''
 
     def edit(self, document, context=None, start=None, end=None,):
         """Write back the modifications to the original parce document.
-- 
2.43.0


From 302a63384cf099adfcd6200af2e8562076ee6f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 34/77] fix: write() ignored the whitespace of elements without
 text, like Newline, Line and Column

---
 quickly/dom/element.py | 50 ++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index ca78001..2f85496 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -569,32 +569,40 @@ class Element(Node, metaclass=ElementType):
         whitespace before and after it.
 
         """
+        point = None
+        space = []
+        for fragment in self._fragments():
+            if not isinstance(fragment, Point):
+                space.append(fragment)
+                continue
+            if point:
+                yield point._replace(space_after=collapse_whitespace((point.space_after, *space)))
+            elif space:
+                # whitespace wanted by elements before the first text
+                fragment = fragment._replace(space_before=collapse_whitespace((*space, fragment.space_before)))
+            point = fragment
+            space.clear()
+        if point:
+            yield point._replace(space_after=collapse_whitespace((point.space_after, *space)))
+
+    def _fragments(self):
+        """Yield the points of this element and its descendants, and (as
+        strings) the whitespace requirements in between."""
         head_point = self.head_point()
         tail_point = self.tail_point()
 
-        def collapse_last(points, last):
-            """Yield all points, but with the last one, add last spacing wish"""
-            for p in points:
-                for q in points:
-                    yield p
-                    p = q
-                # last point, add last space to space wishes
-                space_after = collapse_whitespace((p.space_after, last))
-                yield p._replace(space_after=space_after)
-
-        if head_point:
-            yield head_point
-        children = iter(self)
-        for n in children:
-            # collapse the whitespace after each child (except the last) with
-            # the return value of self.concat_space() (by default space_between)
-            for m in children:
-                yield from collapse_last(n.points(), self.concat_space(n, m))
-                n = m
-            # collapse own space_after with last child point?
-            yield from collapse_last(n.points(), self.space_after) if not tail_point else n.points()
+        yield head_point or self.space_before
+        prev = None
+        for n in self:
+            if prev is not None:
+                # the return value of self.concat_space() (by default space_between)
+                yield self.concat_space(prev, n)
+            yield from n._fragments()
+            prev = n
         if tail_point:
             yield tail_point
+        elif prev is not None or not head_point:
+            yield self.space_after
 
     def concat_space(self, node, next_node):
         """Return the minimum whitespace to apply between these child nodes.
-- 
2.43.0


From 15cd6abea395b285a05823087bc97fd9dba5144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 35/77] fix: Indenter aligned new lines with nodes that are no
 children of the indenting node

---
 quickly/dom/indent.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b8a59cf..f091faa 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -29,8 +29,10 @@ from . import util
 class _IndentLevel:
     """Holds the information for a new indent level."""
     def __init__(self, node):
+        self.node = node
         self.align_indices = tuple(node.indent_align_indices())
         self.align_positions = {}
+        self.pending_index = None       # the child index that starts with the next text
 
     def align_child(self, child_index, pos):
         """Store a position value for the child at the specified index."""
@@ -151,8 +153,13 @@ class Indenter:
 
         self.add_whitespace(node.space_before)
 
+        if self._indenters and self._indenters[-1].node is node.parent \
+            and index in self._indenters[-1].align_indices:
+            # new lines may align with the first text of this node
+            self._indenters[-1].pending_index = index
+
         if head:
-            self.output_head(head, index, node.indent_override())
+            self.output_head(head, node.indent_override())
             if tail or has_children:
                 self.add_whitespace(node.space_after_head)
 
@@ -232,12 +239,9 @@ class Indenter:
                 self._output[-1].line.append(c)
         self._whitespace.clear()
 
-    def output_head(self, text, index=-1, override=None):
+    def output_head(self, text, override=None):
         """*(Internal.)* Output head text.
 
-        The ``index``, if given, is the index of the node in its parent. This
-        is used to get additional indenting hints for the node.
-
         If ``override`` is not None, and this head text happens to be the first
         on a new line, this value is used as the indent depth for this line,
         in stead of the current indent.
@@ -248,17 +252,18 @@ class Indenter:
         last_line = self._output[-1].line
         if not last_line and override is not None:
             self._output[-1].indent = override
-        if self._indenters and index in self._indenters[-1].align_indices:
-            # store the position of the node on the current output line
-            position = len(last_line)
-            self._indenters[-1].align_child(index, position)
+        for i in self._indenters:
+            if i.pending_index is not None:
+                # store the position of the node on the current output line
+                i.align_child(i.pending_index, len(last_line))
+                i.pending_index = None
         last_line.append(text)
 
     def output_tail(self, text):
         """*(Internal.)* Output the tail text."""
         self.output_space()
         if self._can_dedent and self._dedenters:
-            del self._indent_stack[self._dedenters]
+            del self._indent_stack[self._dedenters:]
             self._dedenters = 0
             self._output[-1].indent = self.current_indent()
         self._output[-1].line.append(text)
-- 
2.43.0


From b781bad24dc1e3bdbd07409b8598d75248e954df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 36/77] fix: Indenter aligned with the wrong column after
 dedenting tails and leading space

---
 quickly/dom/indent.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index f091faa..c770a38 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -126,18 +126,10 @@ class Indenter:
         self.create_new_block()
         self.output_node(node)
 
-        # strip preceding space
-        result = self._output
-        while result:
-            if result[0].line:
-                if result[0].line[0].isspace():
-                    del result[0].line[0]
-                else:
-                    break
-            else:
-                del result[0]
+        if not self._output[-1].line:
+            return ''   # no text at all
 
-        return ''.join(block.output() for block in result)
+        return ''.join(block.output() for block in self._output)
 
     def output_node(self, node, index=-1):
         """*(Internal.)* Output one node and its children.
@@ -214,14 +206,14 @@ class Indenter:
 
         if self._indenters:
             # add new indent levels
-            new_indent = current_indent = self.current_indent()
+            new_indent = self.current_indent()
             for i in self._indenters:
                 new_indent += self.indent_width
                 pos = i.get_align_pos()
                 if pos is not None:
                     align_indent = self._output[-1].offset(pos)
                     if align_indent <= self.max_align_indent:
-                        new_indent = current_indent + align_indent
+                        new_indent = self._output[-1].indent + align_indent
                 self._indent_stack.append(new_indent)
             self._indenters.clear()
 
@@ -232,11 +224,12 @@ class Indenter:
 
     def output_space(self):
         """*(Internal.)* Output whitespace. Newlines start a new output line."""
-        for c in util.collapse_whitespace(self._whitespace):
-            if c == '\n':
-                self.create_new_block()
-            else:
-                self._output[-1].line.append(c)
+        if len(self._output) > 1 or self._output[-1].line:  # no space before the first text
+            for c in util.collapse_whitespace(self._whitespace):
+                if c == '\n':
+                    self.create_new_block()
+                else:
+                    self._output[-1].line.append(c)
         self._whitespace.clear()
 
     def output_head(self, text, override=None):
-- 
2.43.0


From d1aa28f88f972058cac975f8da261f4adfd9f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 37/77] fix: edits in a range replaced whitespace before text
 outside the range

---
 quickly/dom/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 2f85496..06f9dcb 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -662,16 +662,20 @@ class Element(Node, metaclass=ElementType):
                 # existing element
                 if point.pos > pos:
                     # see if old content needs to be deleted between pos and point.pos
-                    del_pos = del_end = pos
+                    del_pos = del_end = max(pos, start)
                     for t in tokens:
                         if t.pos >= point.pos:
                             pos = t.pos
                             break
-                        del_end = t.end
-                    del_pos = max(del_pos, start)
+                        if t.pos < end:
+                            del_end = t.end
                     if min(del_end, end) > del_pos:
                         if space and del_end < pos:
-                            del_end = pos   # unparsed space can be ditched
+                            # unparsed space can be ditched, but not after the range
+                            if pos <= end:
+                                del_end = pos
+                            elif del_end <= end:
+                                space = ''
                         yield del_pos, min(del_end, end), space
                 elif space and (changed or (point.modified and point.pos > start)):
                     # adjacent text, preserve that if it did not change
-- 
2.43.0


From 4b6beacff076dbd0b2052f1096833d39c75e2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 38/77] fix: Edit.edit_cursor() edited other nodes than those
 in the selection

---
 quickly/dom/edit.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 406392f..ed0abfb 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -108,20 +108,30 @@ class Edit:
         d = cursor.document().get_transform(True)
         r = start = end = None
         if cursor.has_selection():
-            start_node = d.find_descendant_right(cursor.pos)
-            end_node = d.find_descendant_left(cursor.end)
-            if end_node or start_node:
+            pos, end = cursor.selection()
+            start_node = d.find_descendant_right(pos)
+            end_node = d.find_descendant_left(end)
+            if start_node and end_node:
+                start = start_node.pos
+                end = end_node.end
+                # the children of the end node are selected as well
+                while len(end_node):
+                    end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
+                if r.ancestor() is start_node:
+                    # the start node is selected itself, not only its children
+                    trail = [start_node.parent.index(start_node)]
+                    r = Range(start_node.parent, trail, trail + (r.end_trail or []))
+            else:
+                end = None
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
                 r = Range.from_nodes(start_node)
-        if r is None:
+        else:
             r = Range(d)
+        if r is None:
+            r = Range(d, [len(d)])  # there are no nodes to edit
         self._document = cursor.document()
         self._changes = 0
         result = self.edit_range(r)
-- 
2.43.0


From 6503733f89383ac8a994325df3276ee171ca3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 39/77] fix: setting the octave of a note to 0 left its Octave
 element

---
 quickly/dom/lily.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index f7a8355..0f888eb 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -242,7 +242,10 @@ class Pitchable(element.TextElement, Music):
     @octave.setter
     def octave(self, num):
         for n in self / Octave:
-            n.head = num
+            if num == 0:
+                self.remove(n)
+            else:
+                n.head = num
             return
         if num != 0:
             self.add(Octave(num))
-- 
2.43.0


From cb3478870360002764c973bb7c69376c3002ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 40/77] fix: Reference.get_value() always waited for included
 documents

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0f888eb..8bb680c 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -423,7 +423,7 @@ class Reference(element.Element):
         :meth:`get_value_with_scope`.
 
         """
-        result = self.get_value_with_scope(scope)
+        result = self.get_value_with_scope(scope, wait)
         if result:
             return result[0]
 
-- 
2.43.0


From 66830141de86bd7000090ec1ab3c65d4e6064cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 41/77] fix: a comment before the value of an assignment was
 taken for the value

---
 quickly/dom/lily.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8bb680c..91d6a2e 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -553,7 +553,11 @@ class HandleAssignments(element.Element):
         node = create_element_from_value(value)
         assignment = self.find_assignment(name)
         if assignment:
-            assignment[-1] = node
+            old = assignment.get_value()
+            if old:
+                old.replace_with(node)
+            else:
+                assignment.append(node)
         else:
             self.append(Assignment.with_name(name, node))
 
@@ -1016,7 +1020,10 @@ class Assignment(element.Element):
     def get_value(self):
         """Return the value after the equalsign."""
         for child in self / EqualSign:
-            return child.right_sibling()
+            for node in child.right_siblings():
+                if not isinstance(node, base.Comment):
+                    return node
+            break
 
 
 class Identifier(List):
-- 
2.43.0


From 96a3dc4c31cfd18fba47d401719b30490db5d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 42/77] fix: the value of a variable was not read if a comment
 follows it

---
 quickly/dom/lily.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 91d6a2e..9d4f5af 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3457,6 +3457,11 @@ def create_value_from_element(node):
         return node.head
     elif isinstance(node, Fraction):
         return node.fraction()
+    elif isinstance(node, List):
+        # a single value, with comments
+        nodes = [n for n in node if not isinstance(n, base.Comment)]
+        if len(nodes) == 1:
+            return create_value_from_element(nodes[0])
     elif isinstance(node, Scheme):
         if len(node) == 1:
             node = node[0]
-- 
2.43.0


From c8fe0bda559e0822921d231f50c7d1071ba1334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 43/77] fix: Include.language failed if there is no filename

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 9d4f5af..60f46d1 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2841,7 +2841,7 @@ class Include(element.HeadElement):
         """
         from .. import pitch
         filename = self.filename
-        if filename.endswith(".ly"):
+        if filename and filename.endswith(".ly"):
             language = filename[:-3]
             if language in pitch.pitch_names:
                 return language
-- 
2.43.0


From 500642cc77a27e3087071cb4816787423f54fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 44/77] fix: an unknown language name stopped every edit that
 reads pitches

---
 quickly/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 6b23ea4..2372a68 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -454,7 +454,7 @@ class PitchProcessor:
         from .dom import lily
         for n in node < (lily.Language, lily.Include):
             lang = n.language
-            if lang:
+            if lang in pitch_names:
                 self.language = lang
                 break
 
@@ -472,7 +472,7 @@ class PitchProcessor:
         for n in nodes:
             if isinstance(n, (lily.Language, lily.Include)):
                 lang = n.language
-                if lang:
+                if lang in pitch_names:
                     self.language = lang
                     continue
             yield n
-- 
2.43.0


From 01d0d2a858df9a5a95dfd7dab1c27765cf8662ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 45/77] fix: py_dump() of an element that has right siblings
 ended in a comma

---
 quickly/dom/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 06f9dcb..40bf40f 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -306,7 +306,7 @@ class Element(Node, metaclass=ElementType):
                         yield repr(node.head)
                         if len(node):
                             yield ','
-                    text = '),\n' if node.parent and not node.is_last() else ')'
+                    text = '),\n' if node is not self and not node.is_last() else ')'
                     if len(node):
                         yield '\n'
                         stack.append((gen, text))
-- 
2.43.0


From 4a7e6a3ac3274bbaad061dcbb62d5084c25da1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 46/77] =?UTF-8?q?fix:=20distill=5Fpreferences=20did=20not?=
 =?UTF-8?q?=20recognize=20deprecated=20catal=C3=A0=20names?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 quickly/pitch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 2372a68..f84d117 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -533,6 +533,11 @@ class PitchProcessor:
                         prefer_deprecated = True
                     elif not prefer_deprecated and name in {'asas', 'bes'}:
                         prefer_deprecated = False
+                elif language in ("catalan", "català"):
+                    if name.endswith('s'):
+                        prefer_deprecated = True
+                    elif not prefer_deprecated and name.endswith('d'):
+                        prefer_deprecated = False
                 if name.endswith('x'):
                     prefer_x = True
                 elif not prefer_x and (
-- 
2.43.0


From ae4025af7dc13b51bc37af51036d64dda77b35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 47/77] fix: a string without closing quote lost its last piece
 of text

---
 quickly/dom/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/base.py b/quickly/dom/base.py
index 36b5e2f..604a3d0 100644
--- a/quickly/dom/base.py
+++ b/quickly/dom/base.py
@@ -52,8 +52,9 @@ class String(element.TextElement):
 
     @classmethod
     def read_head(cls, origin):
+        end = -1 if len(origin) > 1 and origin[-1] == '"' else None
         return ''.join(t.text[1:] if t.action is a.String.Escape else t.text
-            for t in origin[1:-1])
+            for t in origin[1:end])
 
     def write_head(self):
         return '"{}"'.format(re.sub(r'([\\"])', r'\\\1', self.head))
-- 
2.43.0


From cc1203f0fa297d012f56ab0c4ab15192980a1bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 48/77] fix: CDATA sections were not written and read in their
 notation

---
 quickly/dom/htm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 1ce2463..13ea750 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -235,12 +235,14 @@ class CData(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        return origin[1]
+        # leave out the '<![', 'CDATA' and '[' tokens and the ']]>' token
+        end = -1 if origin[-1] == ']]>' else None
+        return ''.join(t.text for t in origin[3:end])
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-        text = self.head.replace(']]>', ']]>]]&gt;<[CDATA[')
-        return "<[CDATA[{}]]>".format(text)
+        text = self.head.replace(']]>', ']]>]]&gt;<![CDATA[')
+        return "<![CDATA[{}]]>".format(text)
 
 
 class String(element.BlockElement):
-- 
2.43.0


From 51d8f3933d512f806c7d4c89ef8f09e5f3d7a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:11 +0000
Subject: [PATCH 49/77] fix: a comment after a rest, chord or octave check
 without duration was lost

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23b6996..3dc8fa4 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -746,7 +746,7 @@ class MusicBuilder:
                 music = lily.Unpitched(dur)
         elif music:
             # move comment after pitch back to toplevel
-            self._comments[0:] = util.pop_comments(music)
+            self._comments[0:0] = util.pop_comments(music)
         if music:
             if self._modifier:
                 music.extend(self._comments)
-- 
2.43.0


From 81e8543bc26f7670af444849bca42b7e1d22f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 50/77] fix: a document that was read again after a change had
 notes with two durations

---
 quickly/lang/lilypond.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 3dc8fa4..5373553 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -387,10 +387,19 @@ class LilyPondTransform(base.Transform):
                 if result:
                     yield result
             elif isinstance(i.obj, element.Element):
-                yield i.obj
+                yield self.reuse(i.obj)
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
+    def reuse(self, node):
+        """Return the node, or a copy if it could get arguments later.
+
+        Use this for nodes that are the result of another transform method;
+        because the transformer caches that result it may not be changed.
+
+        """
+        return node.copy_with_origin() if node.signatures() else node
+
     def handle_assignments(self, nodes):
         """Handle assignments that occur in the Element nodes.
 
@@ -520,7 +529,8 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 if step:
                     yield step
-                step = i.obj
+                # the result of a context is cached, don't add nodes to it
+                step = i.obj.copy_with_origin()
         if step:
             yield step
 
@@ -1132,7 +1142,7 @@ class MusicBuilder:
               "chordmode", "figuremode")
     def flatten_elements(self, obj):
         """Called for context that yield lists of Elements; flatten them."""
-        yield from obj
+        yield from map(self.transform.reuse, obj)
 
     @_context("pitch")
     def pitch(self, obj):
@@ -1154,7 +1164,8 @@ class MusicBuilder:
     def music_element(self, obj):
         """An element node that is a music item (chord, figure)."""
         yield from self.pending_music()
-        self._music = obj
+        # the result of a context is cached, don't add nodes to it
+        self._music = obj.copy_with_origin()
 
     @_context("script")
     def script(self, obj):
@@ -1171,7 +1182,7 @@ class MusicBuilder:
         else:
             # toplevel expression
             yield from self.pending_music()
-            yield obj
+            yield self.transform.reuse(obj)
 
     @_context("markup")
     def markup(self, obj):
-- 
2.43.0


From 2d08a36ff4460db3e924cb0205615a675a7232cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 51/77] fix: a comment after a string, name or list took it
 away from the command it belongs to

---
 quickly/lang/lilypond.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 5373553..42bc574 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -267,9 +267,17 @@ class LilyPondTransform(base.Transform):
                 yield i.obj # can be a Scheme or String
 
     def list(self, items):
-        """A List, String, Int, Symbol, or Scheme element."""
+        """A list with a List, String, Int, Symbol, or Scheme element.
+
+        Comments after the element follow it in the returned list.
+
+        """
         nodes = list(self._list_nodes(items))
-        return nodes[0] if len(nodes) == 1 else lily.List(*nodes)
+        i = len(nodes)
+        while i > 1 and isinstance(nodes[i-1], base.Comment):
+            i -= 1
+        node = nodes[0] if i == 1 else lily.List(*nodes[:i])
+        return [node, *nodes[i:]]
 
     start_list = None   # lexicon never creates tokens
 
@@ -388,6 +396,8 @@ class LilyPondTransform(base.Transform):
                     yield result
             elif isinstance(i.obj, element.Element):
                 yield self.reuse(i.obj)
+            elif i.name == "list":
+                yield from map(self.reuse, i.obj)
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -1172,9 +1182,17 @@ class MusicBuilder:
         """Called for ``script`` context: an articulation."""
         self.add_articulation(obj)
 
-    @_context("string", "scheme", "list")
+    @_context("list")
+    def list(self, obj):
+        """Called for ``list`` context: one node and comments."""
+        node, *comments = obj
+        yield from self.string_scheme(node)
+        for node in comments:
+            yield from self.comment(node)
+
+    @_context("string", "scheme")
     def string_scheme(self, obj):
-        """Called for ``string``, ``scheme`` or ``list`` context."""
+        """Called for ``string`` or ``scheme`` context."""
         if self._events:
             # after a direction: an articulation
             if not self.add_event_argument(obj):
-- 
2.43.0


From 6da4667380946229c3c75d171eddbc81375f744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 52/77] fix: the natural sign in figured bass could not be read

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 60f46d1..a28766d 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2515,13 +2515,13 @@ class FigureAccidental(element.MappingElement):
     r"""An accidental in figure mode.
 
     One of: -1, -0.5, 0, 0.5, 1, corresponding to:
-     ``'--'``, ``'-'``, ``''``, ``'+'`` or ``'++'``.
+     ``'--'``, ``'-'``, ``'!'``, ``'+'`` or ``'++'``.
 
     """
     mapping = {
         '--':  -1,
         '-':   -0.5,
-        '':     0,
+        '!':    0,
         '+':    0.5,
         '++':   1,
     }
-- 
2.43.0


From 64a9fa9a421a2b5efcfd382b1181eb21025cb4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 53/77] fix: the closing brace of a score had no position

---
 quickly/lang/lilypond.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 42bc574..254025f 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -103,8 +103,6 @@ class LilyPondTransform(base.Transform):
 
     def score(self, items):
         """A Score element."""
-        tail = (items.pop(),) if items[-1] == '}' else ()
-        head = items[:2]
         return self.create_block(lily.Score, items, music=True)
 
     def header(self, items):
-- 
2.43.0


From 307e77fa65ef85fc3922685db60643d0e844a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 54/77] fix: a markup lost its argument if a comment came
 before it

---
 quickly/lang/lilypond.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 254025f..e3e2a3e 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -468,7 +468,7 @@ class LilyPondTransform(base.Transform):
         return self.factory(element_class, head_origin, tail_origin, *items)
 
     def create_markup(self, markup, items):
-        """Yield zero or one Markup element.
+        """Yield zero or one Markup element (or only comments).
 
         ``markup`` is the result list of :meth:`markup`, and ``items`` is the
         iterable from which more arguments are read. If there is no single
@@ -476,9 +476,14 @@ class LilyPondTransform(base.Transform):
 
         """
         origin = markup[:1]     # the \markup or \markuplist command
+        nodes = []
         for mkup in self.read_markup_arguments(itertools.chain(markup[1:], items)):
-            yield self.factory(lily.Markup, origin, (), mkup)
-            break
+            nodes.append(mkup)
+            if not isinstance(mkup, base.Comment):
+                yield self.factory(lily.Markup, origin, (), *nodes)
+                break
+        else:
+            yield from nodes
 
     def read_markup_arguments(self, items):
         """Read from items and yield nodes that can occur in markup."""
-- 
2.43.0


From 7f9a97ae758052b763f4f71e13629b7db7ceedeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 55/77] fix: a comment was counted as an argument of a tweak,
 tag, shape or spanner id

---
 quickly/lang/lilypond.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index e3e2a3e..555f5a6 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -810,10 +810,14 @@ class MusicBuilder:
             print("Unbound event:", art) # TEMP
             return False
 
+    def argument_count(self, node):
+        """Return the number of child nodes that are no comments."""
+        return sum(1 for n in node if not isinstance(n, base.Comment))
+
     def add_spanner_id(self, node):
         """Return True if the node could be added to a spanner id that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.SpannerId) and len(e[-1]) == 0:
+        if e and isinstance(e[-1], lily.SpannerId) and self.argument_count(e[-1]) == 0:
             e[-1].append(node)
             return True
         return False
@@ -821,7 +825,7 @@ class MusicBuilder:
     def add_tweak(self, node):
         """Return True if the node could be added to a Tweak that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Tweak) and len(e[-1]) < 2:
+        if e and isinstance(e[-1], lily.Tweak) and self.argument_count(e[-1]) < 2:
             e[-1].append(node)
             return True
         return False
@@ -829,7 +833,7 @@ class MusicBuilder:
     def add_tag(self, node):
         r"""Return True if the node could be added to a ``\tag`` command that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Tag) and len(e[-1]) < 1:
+        if e and isinstance(e[-1], lily.Tag) and self.argument_count(e[-1]) < 1:
             e[-1].append(node)
             return True
         return False
@@ -837,7 +841,7 @@ class MusicBuilder:
     def add_shape(self, node):
         r"""Return True if the node could be added to a ``\shape`` command that's being built."""
         e = self._events
-        if e and isinstance(e[-1], lily.Shape) and len(e[-1]) < 2:
+        if e and isinstance(e[-1], lily.Shape) and self.argument_count(e[-1]) < 2:
             e[-1].append(node)
             return True
         return False
-- 
2.43.0


From c2fc6506bc148cb8a5d0213e1ee458d9ace89307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 56/77] fix: a comment in a chord or markup list before the
 closing bracket was moved out of it

---
 quickly/dom/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index cf2c53b..c77fdbd 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -157,12 +157,18 @@ def skip_comments(node):
 
 
 def pop_comments(node):
-    """Pop and return comments off the end of node (and/or its children)."""
+    """Pop and return comments off the end of node (and/or its children).
+
+    Comments before the tail of a child are not at the end and are left alone.
+
+    """
     from .base import Comment
     comments = []
     while len(node):
         if isinstance(node[-1], Comment):
             comments.append(node.pop())
+        elif node[-1].tail is not None:
+            break
         else:
             node = node[-1]
     comments.reverse()
-- 
2.43.0


From 70c010842439ee5658acc9182abba7c541039f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 57/77] fix: the fret diagram markup functions raised NameError

---
 quickly/dom/markup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 656fcda..1581e54 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -111,15 +111,15 @@ def tied_lyric(text):
 
 
 def fret_diagram(s):
-    return c_('fret-diagram', _s(scm.String(s)))
+    return _c('fret-diagram', _s(scm.String(s)))
 
 
 def fret_diagram_terse(s):
-    return c_('fret-diagram-terse', _s(scm.String(s)))
+    return _c('fret-diagram-terse', _s(scm.String(s)))
 
 
 def fret_diagram_verbose(element):
-    return c_('fret-diagram-verbose', element)
+    return _c('fret-diagram-verbose', element)
 
 
 def fromproperty(name):
-- 
2.43.0


From 2e4a55596551a55436af8bcf00a2160468278bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 58/77] fix: markup.woodwind_diagram() raised NameError

---
 quickly/dom/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 1581e54..5506f89 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -250,7 +250,7 @@ def with_url(url, *args):
 
 
 def woodwind_diagram(instrument, scheme_commands):
-    return _c('woodwind-diagram', _sym(label), scheme_commands)
+    return _c('woodwind-diagram', _sym(instrument), scheme_commands)
 
 
 def draw_squiggle_line(sqlength, x, y, eqend):
-- 
2.43.0


From f11ce27950328c7ed8e61bf204c772f073cc2e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 59/77] fix: markup.with_link() made a \with-color command

---
 quickly/dom/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 5506f89..f7d5146 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -242,7 +242,7 @@ def translate_scaled(x, y, *args):
 
 
 def with_link(label, *args):
-    return _c('with-color', _sym(label), _create_list(args))
+    return _c('with-link', _sym(label), _create_list(args))
 
 
 def with_url(url, *args):
-- 
2.43.0


From 841de364689fad5819aa7e1b190dffc38508e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 60/77] fix: to_plaintext() did not use the entity resolver in
 nested elements

---
 quickly/dom/htm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 13ea750..64d2c6f 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -183,7 +183,7 @@ class Element(element.Element):
 
         def to_text(obj):
             if isinstance(obj, Element):
-                return obj.to_plaintext()
+                return obj.to_plaintext(entity_resolver)
             elif isinstance(obj, Text):
                 return obj.head
             elif isinstance(obj, EntityRef):
-- 
2.43.0


From da5bdc4066836007eb9d30152e3f355aa533eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 61/77] fix: htm.m() could not make an element with an
 attribute called name

---
 quickly/dom/htm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 64d2c6f..231de16 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -423,7 +423,7 @@ class _ElementConstructor:
             return node
         return func
 
-    def __call__(self, name, *children, **attrs):
+    def __call__(self, name, /, *children, **attrs):
         return self.__getattr__(name)(*children, **attrs)
 
 
-- 
2.43.0


From 2616b70d2ad8643da3c3a63d8359abae19d1cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 62/77] fix: a Scheme number that is not a number was written
 as the variable nan

---
 quickly/dom/scm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 55d6c2c..2d2b5a2 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -167,7 +167,7 @@ class Number(element.TextElement):
             s = '+inf.0'
         elif v == -math.inf:
             s = '-inf.0'
-        elif v is math.nan:
+        elif isinstance(v, float) and math.isnan(v):
             s = '+nan.0'
         elif isinstance(v, fractions.Fraction):
             fmt = self._fmt[self.radix]
-- 
2.43.0


From 98f379219691cc6a3c9952d7c11c9382b36343e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 63/77] fix: comments in HTML were lost

---
 quickly/dom/htm.py   | 7 +++++++
 quickly/lang/html.py | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 231de16..004d248 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -211,6 +211,13 @@ class Text(element.TextElement):
 
 class Comment(base.MultilineComment):
     """A Html/Xml comment node."""
+    @classmethod
+    def read_head(cls, origin):
+        end = -1 if origin[-1] == '-->' else None
+        return ''.join(t.text for t in origin[1:end])
+
+    def write_head(self):
+        return '<!--{}-->'.format(self.head)
 
 
 class EntityRef(element.TextElement):
diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index de80309..c53c50b 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -235,6 +235,8 @@ class HtmlTransform(base.Transform):
                     i += 2
             elif items[i].name == "tag":
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
+            elif items[i].name == "comment":
+                nodes.append(items[i].obj)
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
             i += 1
-- 
2.43.0


From b1960fc7ef22ce0a6e5bceab15823f1c942f096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 64/77] fix: CDATA sections in HTML were lost

---
 quickly/dom/htm.py   | 2 +-
 quickly/lang/html.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 004d248..dcd95d5 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -184,7 +184,7 @@ class Element(element.Element):
         def to_text(obj):
             if isinstance(obj, Element):
                 return obj.to_plaintext(entity_resolver)
-            elif isinstance(obj, Text):
+            elif isinstance(obj, (Text, CData)):
                 return obj.head
             elif isinstance(obj, EntityRef):
                 return to_text(entity_resolver(obj.head))
diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index c53c50b..b65b9fe 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -235,7 +235,7 @@ class HtmlTransform(base.Transform):
                     i += 2
             elif items[i].name == "tag":
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
-            elif items[i].name == "comment":
+            elif items[i].name in ("comment", "cdata"):
                 nodes.append(items[i].obj)
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
-- 
2.43.0


From ad80aeb3d1b214ccff2ad301d80730dc9fed97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 65/77] fix: processing instructions in HTML were lost

---
 quickly/dom/htm.py   | 2 ++
 quickly/lang/html.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index dcd95d5..afae8f9 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -206,6 +206,8 @@ class Document(base.Document, Element):
 class Text(element.TextElement):
     """Html/Xml text contents (Text or Whitespace)."""
     def write_head(self):
+        if any(self << ProcessingInstruction):
+            return self.head    # no escapes there
         return html.escape(self.head)
 
 
diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index b65b9fe..289f3f6 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -235,7 +235,7 @@ class HtmlTransform(base.Transform):
                     i += 2
             elif items[i].name == "tag":
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
-            elif items[i].name in ("comment", "cdata"):
+            elif items[i].name in ("comment", "cdata", "processing_instruction"):
                 nodes.append(items[i].obj)
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
-- 
2.43.0


From ff75fa422cde55822840e513ed68d6524b50654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 66/77] fix: writing a LaTeX document added blank lines around
 environments and after comments

---
 quickly/dom/util.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index c77fdbd..8f3bafc 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -60,13 +60,23 @@ def combine_text(fragments):
     containing the first ``before`` value, the combined ``text``, and the last
     ``after`` value.
 
+    Newlines that are already there at the end of the text before or at the
+    start of the text after the whitespace are not added again.
+
     """
+    def newlines(text, next_text):
+        """Return the number of newlines in the whitespace between the texts."""
+        return (text[len(text.rstrip()):] + next_text[:-len(next_text.lstrip()) or None]).count('\n')
+
     result = []
     whitespace = []
     for before, text, after in fragments:
         whitespace.append(before)
         if text:
-            result.append(collapse_whitespace(whitespace))
+            space = collapse_whitespace(whitespace)
+            if result and 0 < space.count('\n') <= newlines(result[-1], text):
+                space = ''
+            result.append(space)
             result.append(text)
             whitespace.clear()
         whitespace.append(after)
-- 
2.43.0


From fe5e89f0273d07c4b7ea28e04e8e59355f9b9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 67/77] fix: add_newlines() raised IndexError if a closing
 bracket is missing

---
 quickly/dom/util.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index 8f3bafc..a54da1e 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -118,11 +118,8 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         return '\n' * count
 
     def handle_node(node):
-        try:
-            head_origin = node.head_origin
-        except AttributeError:
-            pass
-        else:
+        head_origin = getattr(node, 'head_origin', ())
+        if head_origin:
             s = get_newlines(head_origin[0].pos)
             if s and whitespace_key(s) > whitespace_key(node.space_before):
                 node.space_before = s
@@ -130,11 +127,8 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         for n in node:
             handle_node(n)
 
-        try:
-            tail_origin = node.tail_origin
-        except AttributeError:
-            pass
-        else:
+        tail_origin = getattr(node, 'tail_origin', ())
+        if tail_origin:
             s = get_newlines(tail_origin[0].pos)
             if s and whitespace_key(s) > whitespace_key(node.space_before_tail):
                 node.space_before_tail = s
-- 
2.43.0


From 44b894189856cf0de67089a6168f8f21ad0efd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 68/77] fix: add_newlines() put a newline after a multiline
 comment or string

---
 quickly/dom/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index a54da1e..fb7a8c4 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -123,6 +123,7 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
             s = get_newlines(head_origin[0].pos)
             if s and whitespace_key(s) > whitespace_key(node.space_before):
                 node.space_before = s
+            get_newlines(head_origin[-1].end)   # skip newlines inside the head
 
         for n in node:
             handle_node(n)
-- 
2.43.0


From 397247223ea1515d906f37616dc7e710d408e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:07 +0000
Subject: [PATCH 69/77] fix: find_parallel() did not see a spanner id before a
 tweak or a comment

---
 quickly/dom/lily.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index a28766d..10ca54a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -705,6 +705,19 @@ class Spanner(element.MappingElement):
         cls.mapping = {cls.spanner_start: "start", cls.spanner_stop: "stop"}
         super().__init_subclass__(**kwargs)
 
+    def spanner_id(self):
+        r"""Return the id node (e.g. Int or Symbol) of the :class:`SpannerId` this
+        spanner is in. Returns None if there is no id.
+
+        """
+        child, node = self, self.parent
+        while isinstance(node, (Direction, Tweak)):
+            child, node = node, node.parent
+        if isinstance(node, SpannerId):
+            for n in node:
+                if not isinstance(n, base.Comment):
+                    return n if n is not child else None
+
     def find_parallel(self, limit=0):
         r"""Try to find the other end of this spanner. May return None.
 
@@ -751,11 +764,13 @@ class Spanner(element.MappingElement):
         cls, head = type(self), self.head
         parallel = lambda n: type(n) is cls and n.head != head
 
-        spanner_id = self.left_sibling() if isinstance(self.parent, SpannerId) else None
+        spanner_id = self.spanner_id()
         if spanner_id:
-            spanner_ok = lambda n: isinstance(n.parent, SpannerId) and spanner_id.equals(n.left_sibling())
+            def spanner_ok(n):
+                other_id = n.spanner_id()
+                return other_id and spanner_id.equals(other_id)
         else:
-            spanner_ok = lambda n: not isinstance(n.parent, SpannerId)
+            spanner_ok = lambda n: not n.spanner_id()
 
         for n in filter(lambda n: parallel(n) and spanner_ok(n), nodes):
             return n
-- 
2.43.0


From 7d44cbb4e6fe7ceb5f5555eb70020d30ac6643ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 70/77] fix: cursor_position() at the end of music raised
 TypeError or gave the position of other music

---
 quickly/time.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index ad53306..9e6946f 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -247,9 +247,18 @@ class Time:
         dom = cursor.document().get_transform(self.wait)
         if dom:
             node = dom.find_descendant_right(cursor.pos)
-            c = self._music_child(node)
-            if c:
-                return self.position(c)
+            # find the innermost music list the cursor is in
+            music = None
+            for n in dom.find_descendants(cursor.pos):
+                if isinstance(n, lily.MusicList) and n.pos < cursor.pos < n.end:
+                    music = n
+            if music and not (node and any(n is music for n in node.ancestors())):
+                # the cursor is after the last node in the list
+                return self.position(music, True)
+            if node:
+                c = self._music_child(node)
+                if c:
+                    return self.position(c)
 
     def cursor_duration(self, cursor):
         """Return a :class:`Result` two-tuple(node, time) or None.
-- 
2.43.0


From 73aa47d1b3c33fbcd59c083e254ab38479ba968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:48 +0000
Subject: [PATCH 71/77] fix: cursor_duration() counted music if whitespace at
 the end of a simultaneous voice was selected

---
 quickly/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 9e6946f..4f7bec2 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -267,7 +267,8 @@ class Time:
         is the length of the selected music fragment.
 
         Returns None if there's no selection or the selection's start and/or
-        end are not in music, or in different music expressions.
+        end are not in music, or in different music expressions, or if the
+        selection contains no music.
 
         """
         if cursor.has_selection():
@@ -275,7 +276,7 @@ class Time:
             dom = cursor.document().get_transform(self.wait)
             if dom:
                 n = dom.find_descendant_right(pos)
-                if n:
+                if n and n.pos < end:
                     start_node = self._music_child(n)
                     if start_node:
                         n = dom.find_descendant_left(end)
-- 
2.43.0


From 1857f97e883f8737504bf2568490818a255849de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 72/77] fix: write a space after tag commands, and let them
 have a list of symbols

---
 quickly/dom/lily.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 10ca54a..8dd6ba2 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2559,50 +2559,56 @@ class FigureAlteration(element.MappingElement):
 
 class Tag(element.HeadElement):
     r"""A ``\tag`` command."""
+    space_after_head = space_between = " "
     head = r'\tag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (List, Symbol, String, Scheme), MUSIC
 
 
 class KeepWithTag(element.HeadElement):
     r"""A ``\keepWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\keepWithTag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (List, Symbol, String, Scheme), MUSIC
 
 
 class RemoveWithTag(element.HeadElement):
     r"""A ``\removeWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\removeWithTag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (List, Symbol, String, Scheme), MUSIC
 
 
 class TagGroup(element.HeadElement):
     r"""A ``\tagGroup`` command."""
+    space_after_head = space_between = " "
     head = r'\tagGroup'
 
     def signatures(self):
-        yield (Symbol, String, Scheme),
+        yield (List, Symbol, String, Scheme),
 
 
 class PushToTag(element.HeadElement):
     r"""A ``\pushToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\pushToTag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (List, Symbol, String, Scheme), MUSIC
 
 
 class AppendToTag(element.HeadElement):
     r"""A ``\appendToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\appendToTag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (List, Symbol, String, Scheme), MUSIC
 
 
 class Etc(element.HeadElement):
-- 
2.43.0


From e393d94ebfcbd7c942a1bc843daf0072e5affa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:09 +0000
Subject: [PATCH 73/77] fix: tagged music takes time

---
 quickly/dom/lily.py | 6 +++---
 quickly/time.py     | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8dd6ba2..c51ae9f 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2557,7 +2557,7 @@ class FigureAlteration(element.MappingElement):
     }
 
 
-class Tag(element.HeadElement):
+class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
     space_after_head = space_between = " "
     head = r'\tag'
@@ -2566,7 +2566,7 @@ class Tag(element.HeadElement):
         yield (List, Symbol, String, Scheme), MUSIC
 
 
-class KeepWithTag(element.HeadElement):
+class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
     space_after_head = space_between = " "
     head = r'\keepWithTag'
@@ -2575,7 +2575,7 @@ class KeepWithTag(element.HeadElement):
         yield (List, Symbol, String, Scheme), MUSIC
 
 
-class RemoveWithTag(element.HeadElement):
+class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
     space_after_head = space_between = " "
     head = r'\removeWithTag'
diff --git a/quickly/time.py b/quickly/time.py
index 4f7bec2..e19aaab 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -150,6 +150,11 @@ class Time:
             return node
         for chord in node << lily.Chord:
             return chord
+        # a (tagged) event belongs to the note
+        for n in node << (lily.Articulations, lily.MusicList):
+            if isinstance(n, lily.Articulations):
+                node = n
+            break
         while node:
             if isinstance(node, lily.Music) or isinstance(node.parent, lily.Music):
                 return node
-- 
2.43.0


From f3d827158edb34d01984cbbe238c8b59fe8886d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 74/77] fix: bass figures take time

---
 quickly/dom/lily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index c51ae9f..c03f2ea 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2490,13 +2490,15 @@ class MarkupScoreLines(MarkupScore):
     head = r"\score-lines {"
 
 
-class Figure(Music):
+class Figure(Durable):
     """A bass figure in figure mode.
 
     Always has one FigureBody child, which contains the numbers etc.
     Can also have a duration child.
 
     """
+    def child_order(self):
+        yield FigureBody, Duration, Articulations, base.Comment
 
 
 class FigureBody(element.BlockElement):
-- 
2.43.0


From a51f264841d90db4aa6063e49814d248d9aa59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:10 +0000
Subject: [PATCH 75/77] fix: let the volta command have a single number

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index c03f2ea..7be2a80 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1350,13 +1350,13 @@ class Unfolded(element.HeadElement, Music):
         yield MUSIC,
 
 
-class Volta(element.HeadElement, Music):
+class Volta(_ConvertUnpitchedToInt, element.HeadElement, Music):
     r"""The ``\volta`` command."""
     head = r'\volta'
     space_between = space_after_head = " "
 
     def signatures(self):
-        yield (List, Scheme), MUSIC
+        yield (List, Int, Unpitched, Scheme), MUSIC
 
 
 class Transposition(element.HeadElement, Music):
-- 
2.43.0


From 78b8b4e9ed0c12b87bce8254009abf696353360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 76/77] fix: editing a selection could delete text after the
 music

---
 quickly/dom/edit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index ed0abfb..f2d13bb 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -122,6 +122,8 @@ class Edit:
                     # the start node is selected itself, not only its children
                     trail = [start_node.parent.index(start_node)]
                     r = Range(start_node.parent, trail, trail + (r.end_trail or []))
+                # do not delete text after the ancestor
+                end = min(end, r.ancestor().end)
             else:
                 end = None
         elif self.range_from_cursor:
-- 
2.43.0


From 54e184fda31384a7876fc5598598d3b355b4fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:30 +0000
Subject: [PATCH 77/77] fix: abs2rel() of a selection made relative music
 relative again

---
 quickly/relative.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 8945341..082bc20 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -201,8 +201,10 @@ class Abs2rel(edit.Edit):
                 elif isinstance(n, lily.ChordMode):
                     r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
 
-        # Do it!
-        abs2rel()
+        # Do it! (if it is not already relative)
+        n = r.ancestor()
+        if not isinstance(n, lily.Relative) and not any(n << lily.Relative):
+            abs2rel()
 
     def make_relative(self, node):
         """Make al notes and pitched rests in the specified :class:`~quickly.dom.lily.MusicList` or
-- 
2.43.0

