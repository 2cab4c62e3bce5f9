From 59b0853dda7a268c4384128850ac2d23d3e38165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 001/155] fix: ords of empty nodes: 10+ consecutive ones, float
 drift and duplicates on moves, removal

OrdTuple could not be created at all (missing import, wrong arguments, wrong slot), reading 1.10
gave a second 1.1, moving a word could produce duplicate or inexact ords, removing an empty node
renumbered also the empty nodes after the next word and corrupted deserialized deps of other nodes.
---
 udapi/core/node.py | 80 +++++++++++++++++++++-------------------------
 udapi/core/root.py | 18 ++++++++++-
 2 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3897c3a..4de0668 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -6,6 +6,7 @@ and function `find_minimal_common_treelet`.
 """
 import logging
 import functools
+import re
 
 import udapi.core.coref
 from udapi.block.write.textmodetrees import TextModeTrees
@@ -455,19 +456,12 @@ class Node(object):
         new_node.deps = [{'parent': self, 'deprel': deprel}]
         # self.enh_children.append(new_node) TODO
         # new_node.enh_parents.append(self) TODO
-        base_ord = self._ord if after else self._ord - 1
-        new_ord = base_ord + 0.1
+        major, minor = _ord_to_key(self._ord if after else self._ord - 1)
+        minor += 1
         for empty in self._root.empty_nodes:
-            if empty._ord > new_ord:
-                break
-            if empty._ord == new_ord:
-                if isinstance(new_ord, OrdTuple):
-                    new_ord.increase()
-                elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(base_ord, 10)
-                else:
-                    new_ord = round(new_ord+0.1, 1)
-        new_node._ord = new_ord
+            if _ord_to_key(empty._ord) == (major, minor):
+                minor += 1
+        new_node._ord = _key_to_ord(major, minor)
         if not self._root.empty_nodes or new_node > self._root.empty_nodes[-1]:
             self._root.empty_nodes.append(new_node)
         else:
@@ -541,14 +535,8 @@ class Node(object):
             else:
                 for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                     node.ord = new_ord
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    if empty._ord > self._ord:
-                        new_ord = round(empty._ord - 1, 1)
-                        if new_ord <= last_ord:
-                            new_ord = round(last_ord + 0.1, 1)
-                        empty.ord = new_ord
-                    last_ord = empty._ord
+                self._root._renumber_empty_nodes(
+                    lambda empty, major: major - 1 if empty._ord > self._ord else major)
         else:
             # Remember the position of empty nodes, so we can reorder them as well.
             empty_follows = None
@@ -571,18 +559,11 @@ class Node(object):
             # Make sure that e.g. after deleting node with ord=2
             # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
             if empty_follows:
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    prev_nonempty = empty_follows[empty]
-                    new_ord = round(prev_nonempty._ord + (empty._ord % 1), 1)
-                    while new_ord <= last_ord:
-                        new_ord = round(new_ord + 0.1, 1)
-                    last_ord, empty.ord = new_ord, new_ord
+                self._root._renumber_empty_nodes(lambda empty, _: empty_follows[empty]._ord)
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
         all_nodes = self._root._descendants
-        empty_nodes = self._root.empty_nodes
 
         # Moving a single node can be faster than nodes_to_move = [self]
         if without_children or not self._children:
@@ -593,20 +574,18 @@ class Node(object):
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 2] = self
                 self._ord = reference_ord - 1
-                for en in empty_nodes:
-                    if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord -= 1
+                self._root._renumber_empty_nodes(
+                    lambda en, major: major - 1 if my_ord < en._ord < reference_ord else major)
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 1] = self
                 self._ord = reference_ord
-                for en in empty_nodes:
-                    # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
-                    # We cannot know whether the caller wanted to place the shifted node before or after them.
-                    if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord += 1
+                # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
+                # We cannot know whether the caller wanted to place the shifted node before or after them.
+                self._root._renumber_empty_nodes(
+                    lambda en, major: major + 1 if reference_ord < en._ord < my_ord else major)
             self._parent._children.sort()
             return
 
@@ -1050,10 +1029,10 @@ class EmptyNode(Node):
 
     @ord.setter
     def ord(self, new_ord):
-        """Empty node's ord setter accepts float and str."""
+        """Empty node's ord setter accepts float and str (and OrdTuple)."""
         if isinstance(new_ord, str):
-            self._ord = float(new_ord)
-        elif isinstance(new_ord, float):
+            self._ord = OrdTuple(new_ord) if re.match(r'\d+\.[1-9]\d+$', new_ord) else float(new_ord)
+        elif isinstance(new_ord, (float, OrdTuple)):
             self._ord = new_ord
         else:
             raise ValueError('Only str and float are allowed for EmptyNode ord setter,'
@@ -1065,16 +1044,18 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
-        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < self.ord+1]
-        for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
             return # self may be an already deleted node e.g. if n.remove() called twice
+        major, minor = _ord_to_key(self._ord)
+        for empty in self._root.empty_nodes:
+            e_major, e_minor = _ord_to_key(empty._ord)
+            if e_major == major and e_minor > minor:
+                empty._ord = _key_to_ord(e_major, e_minor - 1)
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
-                n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
+                n._deps = [dep for dep in n._deps if dep['parent'] is not self]
 
 @functools.total_ordering
 class OrdTuple:
@@ -1122,7 +1103,18 @@ class OrdTuple:
 
     def increase(self):
         """Increment the decimal part of this ord."""
-        self._key = (self.key[0], self._key[1]+1)
+        self._key = (self._key[0], self._key[1]+1)
+
+
+def _ord_to_key(node_ord):
+    """Convert ord of a node (int, float or OrdTuple) to a pair of ints, e.g. 1.3 to (1, 3)."""
+    if isinstance(node_ord, OrdTuple):
+        return node_ord._key
+    return int(node_ord), round(10 * node_ord) - 10 * int(node_ord)
+
+def _key_to_ord(major, minor):
+    """Convert a pair of ints to ord of an empty node (float or OrdTuple), e.g. (1, 3) to 1.3."""
+    return float(f'{major}.{minor}') if minor < 10 else OrdTuple(f'{major}.{minor}')
 
 
 # Implementation note on ListOfNodes
diff --git a/udapi/core/root.py b/udapi/core/root.py
index abf36a7..48739b1 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -1,7 +1,7 @@
 """Root class represents the technical root node in each tree."""
 import logging
 
-from udapi.core.node import Node, EmptyNode, ListOfNodes
+from udapi.core.node import Node, EmptyNode, ListOfNodes, _ord_to_key, _key_to_ord
 from udapi.core.mwt import MWT
 
 # 7 instance attributes is too low (CoNLL-U has 10 columns)
@@ -263,6 +263,22 @@ class Root(Node):
     def descendants_and_empty(self):
         return sorted(self._descendants + self.empty_nodes)
 
+    def _renumber_empty_nodes(self, new_major):
+        """Change the integer part of ords of empty nodes (after changes in the word order).
+
+        Keep the order of empty nodes and their decimal parts unless this leads to a conflict.
+        Args:
+        new_major: a function called with an empty node and the integer part of its ord
+        """
+        last_key = (0, 0)
+        for empty in self.empty_nodes:
+            major, minor = _ord_to_key(empty._ord)
+            major = new_major(empty, major)
+            if (major, minor) <= last_key:
+                major, minor = last_key[0], last_key[1] + 1
+            last_key = (major, minor)
+            empty._ord = _key_to_ord(major, minor)
+
     def steal_nodes(self, nodes):
         """Move nodes from another tree to this tree (append)."""
         old_root = nodes[0].root
-- 
2.43.0


From 3220d655ac1aedfeedfcbb6aa95f036d544269b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 002/155] fix: raw_deps of a node whose deps were emptied

After node.deps.clear() the stale string was returned (and saved), after node.deps = [] it was None.
---
 udapi/core/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 4de0668..caccd75 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -252,8 +252,8 @@ class Node(object):
         # Afterwards, we can use the following optimization
         #if self._raw_deps is not None:
         #    return self._raw_deps
-        if self._deps:
-            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps)
+        if self._deps is not None:
+            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps) or '_'
         return self._raw_deps
 
     @raw_deps.setter
-- 
2.43.0


From 5821fd263a92ce2edc72d5c6e82a4e9baffa4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:35 +0000
Subject: [PATCH 003/155] fix: refused attachment to another tree must not
 detach the node from its parent

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index caccd75..288e980 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -335,10 +335,10 @@ class Node(object):
         # Remove the current Node from the children of the old parent.
         # Forbid moving nodes from one tree to another using parent setter.
         if self._parent:
-            self._parent._children.remove(self)
             if self._parent._root is not new_parent._root:
                 raise ValueError('Cannot move nodes between trees with parent setter, '
                                  'use new_root.steal_nodes(nodes_to_be_moved) instead')
+            self._parent._children.remove(self)
         # Set the new parent.
         self._parent = new_parent
 
-- 
2.43.0


From b08c097ab9a1084b91c955a9a03db0910b12f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:54 +0000
Subject: [PATCH 004/155] fix: write.Conllu comments: unusual line separators,
 empty comments and print_text=0

A comment with e.g. U+2028 was split (yielding invalid CoNLL-U), a comment line '#' was dropped
and with print_text=0 the placeholder was printed as '#$TEXT'.
---
 udapi/block/write/conllu.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 2573b5a..475d34a 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -25,7 +25,10 @@ class Conllu(BaseWriter):
 
         # If tree.comment contains placeholders $NEWDOC,...$TEXT, replace them with the actual
         # value of the attribute and make note on which line (i_*) they were present.
-        comment_lines = tree.comment.splitlines()
+        # Comments are separated by newlines only (unlike in str.splitlines(), e.g. U+2028 is not a separator).
+        comment_lines = tree.comment.split('\n')
+        if comment_lines[-1] == '':
+            comment_lines.pop()
         i_newdoc, i_newpar, i_sent_id, i_text, i_global_entity = -1, -1, -1, -1, -1
         for i, c_line in enumerate(comment_lines):
             if c_line == '$SENT_ID':
@@ -38,6 +41,8 @@ class Conllu(BaseWriter):
                         comment_lines[i] = ' text = ' + tree.compute_text()
                     else:
                         comment_lines[i] = ' text = ' + tree.text.replace('\n', '').replace('\r', '').rstrip()
+                else:
+                    comment_lines[i] = None
             elif c_line == '$NEWDOC':
                 i_newdoc = i
                 if self.print_sent_id and tree.newdoc:
@@ -73,7 +78,7 @@ class Conllu(BaseWriter):
                 else:
                     while printed_i < i_newdoc:
                         printed_i += 1
-                        if comment_lines[printed_i]:
+                        if comment_lines[printed_i] is not None:
                             print('#' + comment_lines[printed_i])
                 ge = tree.document.meta.get('global.Entity')
                 if ge:
@@ -82,7 +87,7 @@ class Conllu(BaseWriter):
                     else:
                         while printed_i < i_global_entity:
                             printed_i += 1
-                            if comment_lines[printed_i]:
+                            if comment_lines[printed_i] is not None:
                                 print('#' + comment_lines[printed_i])
             if tree.newpar:
                 if i_newpar == -1:
@@ -90,20 +95,20 @@ class Conllu(BaseWriter):
                 else:
                     while printed_i < i_newpar:
                         printed_i += 1
-                        if comment_lines[printed_i]:
+                        if comment_lines[printed_i] is not None:
                             print('#' + comment_lines[printed_i])
             if i_sent_id == -1:
                 print('# sent_id = ' + tree.sent_id)
             else:
                 while printed_i < i_sent_id:
                     printed_i += 1
-                    if comment_lines[printed_i]:
+                    if comment_lines[printed_i] is not None:
                         print('#' + comment_lines[printed_i])
         if self.print_text and i_text == -1:
             print('# text = ' + (tree.compute_text() if tree.text is None else tree.text.replace('\n', '').replace('\r', '').rstrip()))
 
         for c_line in comment_lines[printed_i + 1:]:
-            if c_line:
+            if c_line is not None:
                 print('#' + c_line)
 
         # Special-purpose json_* comments should always be at the end of the comment block.
-- 
2.43.0


From e95d1592d01eeba7f591854aa05102774b845942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:12 +0000
Subject: [PATCH 005/155] fix: comments like '# sent_ids = x' must not be taken
 for sent_id

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index b485c17..e81144e 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -10,7 +10,7 @@ from udapi.core.node import Node
 # Compile a set of regular expressions that will be searched over the lines.
 # The equal sign after sent_id was added to the specification in UD v2.0.
 # This reader accepts also older-style sent_id (until UD v2.0 treebanks are released).
-RE_SENT_ID = re.compile(r'^# sent_id\s*=?\s*(\S+)')
+RE_SENT_ID = re.compile(r'^# sent_id(?:\s*=\s*|\s+)(\S+)')
 RE_TEXT = re.compile(r'^# text\s*=\s*(.*)')
 RE_NEWPARDOC = re.compile(r'^# (newpar|newdoc)(?:\s+id\s*=\s*(.+))?$')
 RE_JSON = re.compile(r'^# (doc_)?json_([^ =]+)\s*=\s*(.+)')
-- 
2.43.0


From 0a4fbdd59c3bc8f3df2466429e99a65080960b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 006/155] fix: read.Conllu: missing final empty line, max_docs
 with extra empty lines

A file without the final empty line crashed (or with max_docs lost its last sentence),
with max_docs two consecutive empty lines crashed.
---
 udapi/block/read/conllu.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index e81144e..a5c2346 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -1,4 +1,5 @@
 """"Conllu is a reader block for the CoNLL-U files."""
+import itertools
 import json
 import logging
 import re
@@ -87,23 +88,25 @@ class Conllu(BaseReader):
             # It is obvious how to parse such files and re.split(r'\n\n+', s) is only twice as slow
             # as s.split('\n\n') and this time is negligble
             # relative to the main CoNLL-U parsing in read_tree_from_lines().
+            # Similarly, the empty line after the last sentence may be missing.
             return [self.read_tree_from_lines(s.split('\n')) for s in
-                    re.split(r'\n\n+', self.filehandle.read()) if s]
+                    re.split(r'\n\n+', self.filehandle.read().strip('\n')) if s]
         # udapi.core.basereader takes care about the max_docs parameter.
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
         trees, lines, loaded_docs = [], [], 0
-        for line in self.filehandle:
+        for line in itertools.chain(self.filehandle, ['']):
             line = line.rstrip()
             if line == '':
                 tree = self.read_tree_from_lines(lines)
                 lines = []
+                if tree is None:
+                    continue
                 if tree.newdoc:
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                if tree:
-                    trees.append(tree)
+                trees.append(tree)
             else:
                 lines.append(line)
         return trees
-- 
2.43.0


From 360566b45e80d8621725294e3c7ac9c876eb8d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 007/155] fix: write.Conllu print_sent_id=0 crashed if the
 first comment was sent_id

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 475d34a..13b4c19 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -68,7 +68,7 @@ class Conllu(BaseWriter):
         # keep them at their original position and print also all comment lines preceding them.
         # It they were missing, try to print them at the correct position.
         printed_i = -1
-        if comment_lines and comment_lines[0].startswith(' global.columns'):
+        if comment_lines and comment_lines[0] and comment_lines[0].startswith(' global.columns'):
             printed_i += 1
             print('#' + comment_lines[printed_i])
         if self.print_sent_id:
-- 
2.43.0


From 3f3d49b6d5134b7827faf509fc1e6f5f693b6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 008/155] fix: read.Conllu must not stop at a second
 consecutive empty line

With bundles_per_doc, split_docs or sent_id_filter all the following sentences were silently lost
(unlike in the default mode).
---
 udapi/block/read/conllu.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index a5c2346..99d64f2 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -117,9 +117,13 @@ class Conllu(BaseReader):
         lines = []
         for line in self.filehandle:
             line = line.rstrip()
-            if line == '':
-                break
-            lines.append(line)
+            if line != '':
+                lines.append(line)
+            elif lines:
+                tree = self.read_tree_from_lines(lines)
+                if tree is not None:
+                    return tree
+                lines = []
         return self.read_tree_from_lines(lines)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
-- 
2.43.0


From 1d3f1e5bd986e22cdaa8bc0a6f5b85198798c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 009/155] fix: a sentence without sent_id must not get the ID
 of the previous sentence

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index c3bcf91..0a682f6 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -154,6 +154,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
                 if self.zone != 'keep':
                     root.zone = self.zone
 
@@ -248,6 +250,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
 
                 if self.zone != 'keep':
                     root.zone = self.zone
-- 
2.43.0


From e94f0eada73437ac6472dbb1bd18ddc65e4a8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:22 +0000
Subject: [PATCH 010/155] fix: chunked reading (bundles_per_doc, split_docs)
 after the first chunk

The tree buffered between two chunks was not taken into account: the next tree of the same bundle was
put into another bundle, sentences of the next file could be merged into the last chunk
and with max_docs the following documents were truncated.
---
 udapi/core/basereader.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 0a682f6..f86f0fd 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -187,22 +187,25 @@ class BaseReader(Block):
                 return
             orig_bundles = document.bundles[:]
             bundle, last_bundle_id = None, ''
+            trees_loaded = 0
 
             # There may be a tree left in the buffer when reading the last doc.
             if self._buffer:
                 root = self._buffer
                 self._buffer = None
+                trees_loaded = 1
+                if root._sent_id is not None:
+                    last_bundle_id = root._sent_id.split('/', 1)[0]
                 if orig_bundles:
                     bundle = orig_bundles.pop(0)
                 else:
                     bundle = document.create_bundle()
-                    if root._sent_id is not None:
-                        bundle.bundle_id = root._sent_id.split('/', 1)[0]
+                    if last_bundle_id != '':
+                        bundle.bundle_id = last_bundle_id
                 bundle.add_tree(root)
-                if root.newdoc:
-                    self._docs_loaded += 1
-                    if root.newdoc is not True:
-                        document.meta["docname"] = root.newdoc
+                self._docs_loaded += 1
+                if root.newdoc and root.newdoc is not True:
+                    document.meta["docname"] = root.newdoc
                 document.meta['global.Entity'] = self._global_entity
                 document.meta['loaded_from'] = self.filename
 
@@ -214,7 +217,6 @@ class BaseReader(Block):
                     return
                 logging.info(f"Reading {self.files.filename}")
 
-            trees_loaded = 0
             while True:
                 root = self.filtered_read_tree()
                 if root is None:
@@ -275,6 +277,9 @@ class BaseReader(Block):
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
                     if self.bundles_per_doc and bundle and self.bundles_per_doc == bundle.number:
+                        if self.max_docs and self._docs_loaded >= self.max_docs:
+                            self.finished = True
+                            return
                         self._buffer = root
                         if orig_bundles:
                             logging.warning("bundles_per_doc=%d but the doc had contained %d bundles",
-- 
2.43.0


From d17cc96188b3e655b28283233e267c97e5175cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 011/155] fix: read.Conllu fix_cycles=1 must not keep a node
 attached to itself

---
 udapi/block/read/conllu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 99d64f2..8ed5950 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -204,8 +204,7 @@ class Conllu(BaseReader):
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-                    node._parent = root
-                    root._children.append(node)
+                    parent = root
                 else:
                     raise ValueError(f"Detected a cycle: {node} attached to itself")
             elif node._children:
-- 
2.43.0


From 6e0927fb69d95ff69eb9411d984b1fa1436f99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 012/155] fix: negative HEAD is out of range, not an index from
 the end of the sentence

---
 udapi/block/read/conll.py  | 2 ++
 udapi/block/read/conllu.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index d0aef1e..7456d94 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -130,6 +130,8 @@ class Conll(udapi.block.read.conllu.Conllu):
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
+                if parents[node_ord] < 0:
+                    raise IndexError
                 parent = nodes[parents[node_ord]]
             except IndexError:
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 8ed5950..325bbda 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -198,6 +198,8 @@ class Conllu(BaseReader):
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
+                if parents[node_ord] < 0:
+                    raise IndexError
                 parent = nodes[parents[node_ord]]
             except IndexError:
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
-- 
2.43.0


From 3ea09cf5c0c37ef79a46fe6318d0026576bc7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 013/155] fix: read.Conllu must reject word IDs which are not
 1,2,3...

Words were silently renumbered or given duplicate ords (read.Conll already rejects this).
---
 udapi/block/read/conllu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 325bbda..6ad53b3 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -166,6 +166,8 @@ class Conllu(BaseReader):
                             xpos=fields[4], feats=fields[5], deprel=fields[7], misc=fields[9])
                 root._descendants.append(node)
                 node._ord = int(fields[0])
+                if node._ord != len(nodes):
+                    raise ValueError(f"Node {node} ord mismatch: expecting {len(nodes)} at:\n{line}")
                 if fields[8] != '_':
                     node.raw_deps = fields[8]
                 try:
-- 
2.43.0


From 0b66cec24b5534ecf87b38352dc49fed835dd732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:10 +0000
Subject: [PATCH 014/155] fix: read.Conll (and read.Conllup) left all the words
 also among the children of the root

---
 udapi/block/read/conll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 7456d94..c2bacda 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -124,10 +124,11 @@ class Conll(udapi.block.read.conllu.Conllu):
         # See also udapi.block.write.Conllu, which is compatible with this trick.
         if len(nodes) == 2 and str(nodes[1].misc) == 'Empty=Yes':
             nodes.pop()
-            root._children = []
             root._descendants = []
 
         # Set dependency parents (now, all nodes of the tree are created).
+        # So far, all the nodes were created as children of the root.
+        root._children = []
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
                 if parents[node_ord] < 0:
-- 
2.43.0


From 1b209f72792efa0e0aecbdfc57982cd58b56f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 015/155] fix: read.Conll must keep form and lemma '_' (as
 read.Conllu does)

With form=None, e.g. compute_text() crashed.
---
 udapi/block/read/conll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index c2bacda..7b8d5e9 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -95,7 +95,7 @@ class Conll(udapi.block.read.conllu.Conllu):
                     raise ValueError(f"Node {node} ord mismatch: {value}, but expecting {node._ord} at:\n{line}")
             elif attribute_name == 'deps':
                 setattr(node, 'raw_deps', value)
-            elif attribute_name != '_' and value != '_':
+            elif attribute_name != '_' and (value != '_' or attribute_name in ('form', 'lemma')):
                 setattr(node, attribute_name, value)
 
         nodes.append(node)
-- 
2.43.0


From 043e9341f90265913aa1e1fbcb0deffcce52085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 016/155] fix: filelists (@my.filelist): absolute filenames got
 a directory prefix, @- crashed

---
 udapi/core/files.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index be59b2c..059f203 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -3,7 +3,6 @@
 import glob
 import io
 import sys
-import os.path
 import bz2
 import gzip
 import lzma
@@ -69,12 +68,11 @@ class Files(object):
             if not filenames:
                 raise RuntimeError('No filenames matched "%s" pattern' % pattern)
         elif token[0] == '@':
-            filelist_name = sys.stdin if token == '@-' else token[1:]
-            with open(filelist_name) as filelist:
-                filenames = [line.rstrip('\n') for line in filelist]
-            directory = os.path.dirname(token[1:])
-            if directory != '.':
-                filenames = [f if f[0] != '/' else directory + '/' + f for f in filenames]
+            if token == '@-':
+                filenames = [line.rstrip('\n') for line in sys.stdin]
+            else:
+                with open(token[1:]) as filelist:
+                    filenames = [line.rstrip('\n') for line in filelist]
         else:
             filenames = [token]
         return filenames
-- 
2.43.0


From 6a4468631a6bc28083d4de7e23509f1eb17a047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:14 +0000
Subject: [PATCH 017/155] fix: max_docs counts also documents without newdoc,
 no extra empty document

---
 udapi/core/basereader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index f86f0fd..7bac864 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -138,7 +138,8 @@ class BaseReader(Block):
             for root in trees:
                 if root is None:
                     continue
-                if root.newdoc:
+                # Similarly to process_document(), a document without newdoc is counted for max_docs as well.
+                if root.newdoc or not document.bundles:
                     if self.max_docs and self._docs_loaded >= self.max_docs:
                         self.finished = True
                         return True
@@ -172,6 +173,8 @@ class BaseReader(Block):
                 self.finished = True
                 return True
             if not self.merge:
+                # Don't add an extra empty document if max_docs documents have been loaded.
+                self.finished = bool(self.max_docs and self._docs_loaded >= self.max_docs)
                 return True
         return True
 
@@ -224,7 +227,8 @@ class BaseReader(Block):
                         filehandle = self.next_filehandle()
                         logging.info(f"Reading {self.files.filename}")
                         continue
-                    self.finished = not self.files.has_next_file()
+                    self.finished = (not self.files.has_next_file()
+                                     or bool(self.max_docs and self._docs_loaded >= self.max_docs))
                     break
                 if trees_loaded == 0:
                     document.meta['loaded_from'] = self.filename
-- 
2.43.0


From 3fa3cdc9e8ae952bee3258bdef5d009937155587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 018/155] fix: max_docs with newdoc at a chunk boundary or with
 merged files

---
 udapi/block/read/conllu.py | 3 ++-
 udapi/core/basereader.py   | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 6ad53b3..ecca4a4 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -102,11 +102,12 @@ class Conllu(BaseReader):
                 lines = []
                 if tree is None:
                     continue
+                # The first tree of the next document is included, so basereader knows about it.
+                trees.append(tree)
                 if tree.newdoc:
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                trees.append(tree)
             else:
                 lines.append(line)
         return trees
diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 7bac864..e8ad5d2 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -276,7 +276,6 @@ class BaseReader(Block):
                                             len(orig_bundles))
                         self.finished = False
                         return
-                    self._docs_loaded += 1
 
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
@@ -300,6 +299,9 @@ class BaseReader(Block):
                         if last_bundle_id != '':
                             bundle.bundle_id = last_bundle_id
 
+                # Trees kept in the buffer are counted when added to the next document.
+                if root.newdoc:
+                    self._docs_loaded += 1
                 bundle.add_tree(root)
 
                 # If bundles_per_doc is set and we have read the specified number of bundles,
-- 
2.43.0


From 78b689cab6dc53f7afede815ce1bd37d10abd4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 019/155] fix: Root.flatten() did not reset deprels as
 documented

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 48739b1..22a4e7d 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -330,3 +330,4 @@ class Root(Node):
         for node in self._children:
             node._parent = self
             node._children.clear()
+            node.deprel = deprel
-- 
2.43.0


From 8fc20723822d38ad9a58e7f34f9eae4272e1efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 020/155] fix: steal_nodes: renumber the rest of the old tree,
 keep all MWTs and empty nodes

---
 udapi/core/root.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 22a4e7d..f5ffecb 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -289,6 +289,13 @@ class Root(Node):
         whole_tree = nodes == old_root.descendants
         new_ord = len(self._descendants)
         # pylint: disable=protected-access
+        # Empty nodes move together with the word they follow.
+        empty_follows, followed = [], old_root
+        for node in old_root.descendants_and_empty if old_root.empty_nodes else []:
+            if node.is_empty():
+                empty_follows.append((node, followed))
+            else:
+                followed = node
         for node in nodes:
             new_ord += 1
             node.ord = new_ord
@@ -305,15 +312,33 @@ class Root(Node):
         if whole_tree:
             old_root._descendants = []
             self._mwts += old_root.multiword_tokens
+            for mwt in old_root.multiword_tokens:
+                mwt.root = self
             old_root.multiword_tokens = []
         else:
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
-            mwt = node.multiword_token
+            for (old_ord, node) in enumerate(old_root._descendants, 1):
+                node.ord = old_ord
             for node in nodes:
-                if mwt:
+                mwt = node.multiword_token
+                if mwt and mwt.root is not self:
                     words = [w for w in mwt.words if w in nodes]
                     mwt.remove()
                     self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
+        if empty_follows:
+            old_len = len(self._descendants)
+            old_root.empty_nodes = []
+            for (empty, followed) in empty_follows:
+                empty_root, major = followed._root, followed._ord
+                if whole_tree:
+                    empty_root, major = self, major or old_len
+                minor = 1
+                if empty_root.empty_nodes:
+                    last_major, last_minor = _ord_to_key(empty_root.empty_nodes[-1]._ord)
+                    if last_major == major:
+                        minor = last_minor + 1
+                empty._root, empty._ord = empty_root, _key_to_ord(major, minor)
+                empty_root.empty_nodes.append(empty)
         self._descendants += nodes
         # pylint: enable=protected-access
 
-- 
2.43.0


From 8dd457a0602171ec1b50a02ad8fb804c8a297922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 021/155] fix: find_minimal_common_treelet returned a wrong
 treelet if one path reached the root first

---
 udapi/core/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 288e980..6e4b152 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1201,7 +1201,8 @@ def find_minimal_common_treelet(*args):
     # If we climb up to the root of the whole tree, we save the root in `highest`.
     new_nodes = {}
     highest = None
-    while len(nodes) > 1:
+    # If one component has climbed up to the root, the rest must climb until they are merged with it.
+    while len(nodes) > 1 or (highest and nodes):
         node = nodes.pop(0)  # TODO deque
         parent = node._parent
         if parent is None:
-- 
2.43.0


From cf91cb701dc82cf12b0d61eabe6eea48ab9a1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 022/155] fix: node.feats = node.feats (and misc) deleted
 everything if not deserialized yet

---
 udapi/core/dualdict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index ba0129e..dd9e20b 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -115,7 +115,8 @@ class DualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value if value != '' else '_'
         elif isinstance(value, collections.abc.Mapping):
-            self._string = None
+            # The order is important if value is self (e.g. node.misc = node.misc) and not deserialized yet.
             self._dict = dict(value)
+            self._string = None
         else:
             raise ValueError("Unsupported value type " + str(value))
-- 
2.43.0


From 882a0e0936ecb0d98cf5e2f2c6a6cb22ca51b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 023/155] fix: enhanced dependencies on removed nodes (words,
 empty nodes after lazy loading)

---
 udapi/core/node.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 6e4b152..f89cab1 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -510,6 +510,7 @@ class Node(object):
             `rehang_warn` means to rehang and warn:-).
         """
         self._parent._children.remove(self)
+        removed = {self} if children and children.startswith('rehang') else {self, *self.unordered_descendants()}
 
         # If there are any children, do the action specified in the "children" parameter.
         if children is not None and self._children:
@@ -561,6 +562,11 @@ class Node(object):
             if empty_follows:
                 self._root._renumber_empty_nodes(lambda empty, _: empty_follows[empty]._ord)
 
+        # Delete (already deserialized) enhanced dependencies on the removed nodes.
+        for n in self._root.empty_nodes + self._root._descendants:
+            if n._deps:
+                n._deps = [dep for dep in n._deps if dep['parent'] not in removed]
+
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
         all_nodes = self._root._descendants
@@ -1044,6 +1050,11 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
+        # Enhanced dependencies stored as strings refer to the original ords of empty nodes,
+        # so they must be deserialized before the ords are changed.
+        if self in self._root.empty_nodes:
+            for n in self._root.empty_nodes + self._root._descendants:
+                n.deps  # pylint: disable=pointless-statement
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
-- 
2.43.0


From b2ee6ca7d070404a251073d6ff2274d807cd0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 024/155] fix: MWTs with words not in the word order (duplicate
 tokens), ud.RemoveMwt skipped every second MWT

---
 udapi/block/ud/removemwt.py | 2 +-
 udapi/core/node.py          | 2 +-
 udapi/core/root.py          | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/block/ud/removemwt.py b/udapi/block/ud/removemwt.py
index 99c37b4..80615b5 100644
--- a/udapi/block/ud/removemwt.py
+++ b/udapi/block/ud/removemwt.py
@@ -6,7 +6,7 @@ class RemoveMwt(Block):
     """Substitute MWTs with one word representing the whole MWT."""
 
     def process_tree(self, root):
-        for mwt in root.multiword_tokens:
+        for mwt in list(root.multiword_tokens):
             words = mwt.words
             words[0].form = mwt.form
             words[0].misc = mwt.misc
diff --git a/udapi/core/node.py b/udapi/core/node.py
index f89cab1..ee8d4c4 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -846,7 +846,7 @@ class Node(object):
             mwt = node.multiword_token
             if use_mwt and mwt:
                 if node._ord > last_mwt_id:
-                    last_mwt_id = mwt.words[-1]._ord
+                    last_mwt_id = max(word._ord for word in mwt.words)
                     string += mwt.form
                     if mwt.misc['SpaceAfter'] != 'No':
                         string += ' '
diff --git a/udapi/core/root.py b/udapi/core/root.py
index f5ffecb..bddf806 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -176,6 +176,7 @@ class Root(Node):
         form: string representing the surface form of the new MWT
         misc: misc attribute of the new MWT
         """
+        words = sorted(words)
         # Nested or overlapping MWTs are not allowed in CoNLL-U,
         # so first remove all previous MWTs containing any of words.
         for w in words:
@@ -253,7 +254,7 @@ class Root(Node):
             mwt = node.multiword_token
             if mwt:
                 if node.ord > last_mwt_id:
-                    last_mwt_id = mwt.words[-1].ord
+                    last_mwt_id = max(word.ord for word in mwt.words)
                     result.append(mwt)
             else:
                 result.append(node)
-- 
2.43.0


From bcbf88d90efee3108532c65cf4348637812f050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 025/155] fix: words removed from the tree stayed in their
 multi-word token

---
 udapi/core/node.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index ee8d4c4..b851156 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -512,6 +512,15 @@ class Node(object):
         self._parent._children.remove(self)
         removed = {self} if children and children.startswith('rehang') else {self, *self.unordered_descendants()}
 
+        # Removed words cannot be part of a multi-word token. A single word left does not form any.
+        for node in removed:
+            mwt = node._mwt
+            if mwt:
+                mwt.words = [word for word in mwt.words if word is not node]
+                node._mwt = None
+                if len(mwt.words) < 2:
+                    mwt.remove()
+
         # If there are any children, do the action specified in the "children" parameter.
         if children is not None and self._children:
             if children.startswith('rehang'):
-- 
2.43.0


From 3f94cbfd848de42e93c58e88319101459884f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 026/155] fix: MWT.address() crashed

---
 udapi/core/mwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 3cc95ca..95dc093 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -45,7 +45,7 @@ class MWT(object):
 
     def address(self):
         """Full (document-wide) id of the multi-word token."""
-        return self.root.address + '#' + self.ord_range
+        return self.root.address() + '#' + self.ord_range
 
     @staticmethod
     def is_mwt():
-- 
2.43.0


From 505ce6ecf537cb0ba24733082cc858d2df6703f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 027/155] fix: ud.ComplyWithText crashed on extra tokens at the
 end of sentence and on edits of multi-word tokens

---
 udapi/block/ud/complywithtext.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index b36b251..29f9171 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -101,7 +101,8 @@ class ComplyWithText(Block):
         """Store the previous form of this node into MISC, unless the change is common&expected."""
         if node.form not in ("''", "``") and self.previous_form_label:
             node.misc[self.previous_form_label] = node.form
-            if self.previous_form_label == 'CorrectForm':
+            # Multi-word tokens have no FEATS.
+            if self.previous_form_label == 'CorrectForm' and not node.is_mwt():
                 node.feats['Typo'] = 'Yes'
 
     def process_tree(self, root):
@@ -162,13 +163,13 @@ class ComplyWithText(Block):
         for diff in orig_diffs:
             edit, tree_lo, tree_hi, text_lo, text_hi = diff
             if edit != 'insert':
-                if tree_chars[tree_lo] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_lo] == ' ':
                     tree_lo += 1
-                if tree_chars[tree_hi - 1] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_hi - 1] == ' ':
                     tree_hi -= 1
-                if text[text_lo] == ' ':
+                if text_lo < text_hi and text[text_lo] == ' ':
                     text_lo += 1
-                if text[text_hi - 1] == ' ':
+                if text_lo < text_hi and text[text_hi - 1] == ' ':
                     text_hi -= 1
             old = tree_chars[tree_lo:tree_hi]
             new = text[text_lo:text_hi]
@@ -226,7 +227,7 @@ class ComplyWithText(Block):
             elif edit == 'insert':
                 forms = text[text_lo:text_hi].split(' ')
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
-                    next_node = char_nodes[tree_lo]
+                    next_node = char_nodes[tree_lo].words[0]
                     for f in reversed(forms):
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
@@ -239,7 +240,8 @@ class ComplyWithText(Block):
                 if all(regex.fullmatch('\p{P}+', n.form) for n in nodes):
                     if self.allow_delete_punct:
                         for node in nodes:
-                            node.remove(children='rehang')
+                            for word in node.words:
+                                word.remove(children='rehang')
                     else:
                         logging.warning('Unable to delete punctuation nodes (try ud.ComplyWithText allow_delete_punct=1)\n%s',
                                         _diff2str(diff, tree_chars, text))
@@ -268,7 +270,7 @@ class ComplyWithText(Block):
                     if self.allow_space(form):
                         self.store_previous_form(node)
                         node.form = form
-                    elif self.allow_goeswith:
+                    elif self.allow_goeswith and not node.is_mwt():
                         self.store_previous_form(node)
                         forms = form.split()
                         node.form = forms[0]
@@ -280,8 +282,8 @@ class ComplyWithText(Block):
                         logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
                 elif self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('[ \p{P}]+', form[len(node.form):]):
                     for punct_form in reversed(form[len(node.form):].split()):
-                        new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                        new.shift_after_node(node)
+                        new = node.words[-1].create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                        new.shift_after_node(node.words[-1])
                         new.misc[self.added_label] = 1
                 else:
                     logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
@@ -309,8 +311,8 @@ class ComplyWithText(Block):
         else:
             if self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('\p{P}+', form[len(node.form):]):
                 punct_form = form[len(node.form):]
-                new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                new.shift_after_node(node)
+                new = node.words[-1].create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                new.shift_after_node(node.words[-1])
                 new.misc[self.added_label] = 1
             else:
                 self.store_previous_form(node)
-- 
2.43.0


From 1f2b5d7220512c1bd1a5ac927fe840e98b77dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 028/155] fix: ud.SetSpaceAfter: ambiguous quotes leaked to the
 following sentences, crash on trees with less than two words

---
 udapi/block/ud/setspaceafter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 04c9fff..13795cd 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -31,7 +31,7 @@ class SetSpaceAfter(Block):
         # and treat odd-indexed ones as opening and even-indexed ones as closing.
         # Otherwise (odd number, e.g. when quoting multiple sentences), don't remove any space.
         matching_quotes = not bool(count_of_form['"'] % 2)
-        not_after, not_before = self.not_after, self.not_before
+        not_after, not_before = list(self.not_after), list(self.not_before)
         odd_indexed_quote = True
 
         # Some languages use directed „quotes“ and some “quotes”,
@@ -43,7 +43,7 @@ class SetSpaceAfter(Block):
 
         for i, node in enumerate(nodes[:-1]):
             next_form = nodes[i + 1].form
-            if node.form in self.not_after or next_form in not_before:
+            if node.form in not_after or next_form in not_before:
                 self.mark_no_space(node)
             if node.form == '"':
                 if matching_quotes:
@@ -55,7 +55,7 @@ class SetSpaceAfter(Block):
                 elif i==0:
                     self.mark_no_space(node)
 
-        if nodes[-1].form == '"':
+        if len(nodes) > 1 and nodes[-1].form == '"':
             self.mark_no_space(nodes[-2])
 
         if self.fix_text and self.changed:
-- 
2.43.0


From 5db0e7ff352ecd264e78dfdd4aeef4d0e27eb8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 029/155] fix: ud.ComplyWithText changed words or text if only
 spaces differed

---
 udapi/block/ud/complywithtext.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 29f9171..8afd29a 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -120,21 +120,23 @@ class ComplyWithText(Block):
         if text == root.compute_text():
             return
 
-        tree_chars, char_nodes = _nodes_to_chars(root.token_descendants)
+        # If the tokens already match the text, only SpaceAfter=No needs to be fixed (below).
+        if not _tokens_match(root.token_descendants, text):
+            tree_chars, char_nodes = _nodes_to_chars(root.token_descendants)
 
-        # Align. difflib may not give LCS, but usually it is good enough.
-        matcher = difflib.SequenceMatcher(None, tree_chars, text, autojunk=False)
-        diffs = list(matcher.get_opcodes())
-        _log_diffs(diffs, tree_chars, text, 'matcher')
+            # Align. difflib may not give LCS, but usually it is good enough.
+            matcher = difflib.SequenceMatcher(None, tree_chars, text, autojunk=False)
+            diffs = list(matcher.get_opcodes())
+            _log_diffs(diffs, tree_chars, text, 'matcher')
 
-        diffs = self.unspace_diffs(diffs, tree_chars, text)
-        _log_diffs(diffs, tree_chars, text, 'unspace')
+            diffs = self.unspace_diffs(diffs, tree_chars, text)
+            _log_diffs(diffs, tree_chars, text, 'unspace')
 
-        diffs = self.merge_diffs(diffs, char_nodes)
-        _log_diffs(diffs, tree_chars, text, 'merge')
+            diffs = self.merge_diffs(diffs, char_nodes)
+            _log_diffs(diffs, tree_chars, text, 'merge')
 
-        # Solve diffs.
-        self.solve_diffs(diffs, tree_chars, char_nodes, text)
+            # Solve diffs.
+            self.solve_diffs(diffs, tree_chars, char_nodes, text)
 
         # Fill SpaceAfter=No.
         tmp_text = text
@@ -319,6 +321,14 @@ class ComplyWithText(Block):
                 node.form = form
 
 
+def _tokens_match(nodes, text):
+    for node in nodes:
+        if not text.startswith(node.form):
+            return False
+        text = text[len(node.form):].lstrip()
+    return not text
+
+
 def _nodes_to_chars(nodes):
     chars, char_nodes = [], []
     for node in nodes:
-- 
2.43.0


From 83b5c548bb1d4dd7e2b2c82a97bfc98325f42f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:56 +0000
Subject: [PATCH 030/155] fix: coreference: other after named fields in
 global.Entity, keys of other, BridgingLinks(), links to entities without
 mentions

---
 udapi/core/coref.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aa27e6a..f633480 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -213,7 +213,7 @@ class CorefMention(object):
 
     @property
     def bridging(self):
-        if not self._bridging:
+        if self._bridging is None:
             self._bridging = BridgingLinks(self)
         return self._bridging
 
@@ -517,7 +517,9 @@ class BridgingLinks(collections.abc.MutableSequence):
         """
         if relations_re is None:
             return self
-        return BridgingLinks(self.src_mention, [l for l in self._data if re.match(relations_re, l.relation)])
+        links = BridgingLinks(self.src_mention, [(l.target, l.relation) for l in self._data if re.match(relations_re, l.relation)])
+        self.src_mention._bridging = self
+        return links
 
     @property
     def targets(self):
@@ -525,7 +527,7 @@ class BridgingLinks(collections.abc.MutableSequence):
         return [link.target for link in self._data]
 
     def _delete_targets_without_mentions(self, warn=True):
-        for link in self._data:
+        for link in list(self._data):
             if not link.target.mentions:
                 if warn:
                     logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
@@ -664,7 +666,7 @@ def load_coref_from_misc(doc, strict=True):
                     elif name == 'other':
                         if other:
                             new_other = OtherDualDict(value)
-                            for k,v in other.values():
+                            for k,v in other.items():
                                 new_other[k] = v
                             other = new_other
                         else:
@@ -784,7 +786,7 @@ def store_coref_to_misc(doc):
 
     fields = global_entity.split('-')
     # GRP and entity are legacy names for eid and etype, respectively.
-    other_fields = [f for f in fields if f not in ('eid etype head other GRP entity'.split(), )]
+    other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
     attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
@@ -894,14 +896,15 @@ def store_coref_to_misc(doc):
         if mention._bridging:
             mention._bridging._delete_targets_without_mentions()
             str_bridge = str(mention._bridging)
-            if firstword.misc['Bridge']:
+            if str_bridge and firstword.misc['Bridge']:
                 str_bridge = firstword.misc['Bridge'] + ',' + str_bridge
-            firstword.misc['Bridge'] = str_bridge
+            if str_bridge:
+                firstword.misc['Bridge'] = str_bridge
 
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
         if entity.split_ante:
-            for ante_entity in entity.split_ante:
+            for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
                     entity.split_ante.remove(ante_entity)
@@ -1058,7 +1061,7 @@ class OtherDualDict(collections.abc.MutableMapping):
         return self._dict.__contains__(key)
 
     def clear(self):
-        self._string = '_'
+        self._string = ''
         self._dict.clear()
 
     def copy(self):
-- 
2.43.0


From 40a805be3a897834bd59a0c430b75629fdfcc4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 031/155] fix: coreference: keep mentions sorted after edits,
 refused create_mention left a mention, spans with ords like 1.10, header
 without head

---
 udapi/core/coref.py | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index f633480..8612005 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -103,7 +103,6 @@ import collections
 import collections.abc
 import copy
 import logging
-import bisect
 
 @functools.total_ordering
 class CorefMention(object):
@@ -209,7 +208,8 @@ class CorefMention(object):
             if  not original_entity._mentions:
                 logging.warning(f"Original entity {original_entity.eid} is now empty.")
         self._entity = new_entity
-        bisect.insort(new_entity._mentions, self)
+        new_entity._mentions.append(self)
+        self._update_order()
 
     @property
     def bridging(self):
@@ -243,11 +243,20 @@ class CorefMention(object):
         self._words = new_words
         for new_word in new_words:
             if new_word not in kept_words:
-                if not new_word._mentions or self > new_word._mentions[-1]:
-                    new_word._mentions.append(self)
-                else:
-                    new_word._mentions.append(self)
-                    new_word._mentions.sort()
+                new_word._mentions.append(self)
+        if new_words:
+            self._update_order()
+
+    def _update_order(self):
+        """Keep the lists with this mention sorted after its span or entity has changed.
+
+        New lists are created, so it is safe to edit mentions while iterating over these lists.
+        """
+        for word in self._words:
+            if len(word._mentions) > 1:
+                word._mentions = sorted(word._mentions)
+        if self._entity is not None and len(self._entity._mentions) > 1:
+            self._entity._mentions = sorted(self._entity._mentions)
 
     @property
     def span(self):
@@ -379,12 +388,14 @@ class CorefEntity(object):
             raise ValueError("Either head or words must be specified")
         if head is None:
             head = words[0]
+        if span:
+            words = span_to_nodes(head.root, span)
+            if head not in words:
+                raise ValueError(f"Head {head} is not in the specified span {span}")
 
         mention = CorefMention(words=[head], head=head, entity=self)
         if words:
             mention.words = words
-        if span:
-            mention.span = span
         self._mentions.sort()
         return mention
 
@@ -706,7 +717,8 @@ def load_coref_from_misc(doc, strict=True):
                         if m is not mention:
                             _error(f"{node}: closing mention {mention.entity.eid} ({mention.words}), but it has an unfinished nested mention ({m.words})", 1)
                         try:
-                            mention.head = mention._words[head_idx - 1]
+                            if head_idx:
+                                mention.head = mention._words[head_idx - 1]
                         except IndexError as err:
                             _error(f"Invalid head_idx={head_idx} for {mention.entity.eid} "
                                     f"closed at {node} with words={mention._words}", 1)
@@ -925,9 +937,9 @@ def span_to_nodes(root, span):
     for span_str in span.split(','):
         try:
             if '-' not in span_str:
-                lo = hi = float(span_str)
+                lo = hi = _parse_ord(span_str)
             else:
-                lo, hi = (float(x) for x in span_str.split('-'))
+                lo, hi = (_parse_ord(x) for x in span_str.split('-'))
         except ValueError as e:
             raise ValueError(f"Cannot parse '{span}': {e}")
         ranges.append((lo, hi))
@@ -941,7 +953,13 @@ def span_to_nodes(root, span):
                 return True
         return False
 
-    return [w for w in root.descendants_and_empty if _num_in_ranges(w.ord)]
+    return [w for w in root.descendants_and_empty if _num_in_ranges(_parse_ord(str(w.ord)))]
+
+
+def _parse_ord(string):
+    """Convert an ord to a pair of ints, so that e.g. 1.9 < 1.10 < 2."""
+    major, _, minor = string.partition('.')
+    return int(major), int(minor or 0)
 
 
 def nodes_to_span(nodes):
-- 
2.43.0


From 5d27879251003f04d955d5784102fc3d7c12ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:31 +0000
Subject: [PATCH 032/155] fix: storing coreference crashed on an entity with
 split antecedents but no mentions

---
 udapi/core/coref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 8612005..566ccd9 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -915,7 +915,9 @@ def store_coref_to_misc(doc):
 
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
-        if entity.split_ante:
+        if entity.split_ante and not entity.mentions:
+            logging.warning(f"Entity {entity.eid} has no mentions, so its SplitAnte cannot be stored")
+        elif entity.split_ante:
             for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
-- 
2.43.0


From 29b9c73bc7c0d297be849ed8d8f94a42816c7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 033/155] fix: corefud.RemoveNoCorefEntities left the mentions
 of removed entities in words, and deleting all entities left their annotation
 in MISC

---
 udapi/block/corefud/removenocorefentities.py | 4 ++++
 udapi/core/coref.py                          | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/removenocorefentities.py b/udapi/block/corefud/removenocorefentities.py
index 4551873..6228f0c 100644
--- a/udapi/block/corefud/removenocorefentities.py
+++ b/udapi/block/corefud/removenocorefentities.py
@@ -18,4 +18,8 @@ class RemoveNoCorefEntities(Block):
         entities = doc.coref_entities
         if not entities:
             return
+        for entity in entities:
+            if re.match(r'^NOCOREF', entity.eid):
+                for mention in list(entity.mentions):
+                    mention.remove()
         doc._eid_to_entity = {e._eid: e for e in entities if not re.match(r'^NOCOREF', e.eid)}
diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 566ccd9..6d42849 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -783,7 +783,14 @@ def load_coref_from_misc(doc, strict=True):
 
 
 def store_coref_to_misc(doc):
+    if doc._eid_to_entity is None:
+        return
+    attrs = "Entity SplitAnte Bridge".split()
     if not doc._eid_to_entity:
+        # All entities may have been deleted since loading.
+        for node in doc.nodes_and_empty:
+            for attr in attrs:
+                del node.misc[attr]
         return
 
     tree2docid = doc.meta.get('_tree2docid')
@@ -800,7 +807,6 @@ def store_coref_to_misc(doc):
     # GRP and entity are legacy names for eid and etype, respectively.
     other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
-    attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
         for attr in attrs:
             del node.misc[attr]
-- 
2.43.0


From 1ebe93b5a716486c691f5f815a160ae76ce3dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 034/155] fix: corefud.FixEntityAcrossNewdoc listed each
 mention twice in its words

---
 udapi/block/corefud/fixentityacrossnewdoc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/corefud/fixentityacrossnewdoc.py b/udapi/block/corefud/fixentityacrossnewdoc.py
index 61e5e4f..d04c6c5 100644
--- a/udapi/block/corefud/fixentityacrossnewdoc.py
+++ b/udapi/block/corefud/fixentityacrossnewdoc.py
@@ -21,5 +21,8 @@ class FixEntityAcrossNewdoc(Block):
         udapi.core.coref.store_coref_to_misc(doc)
         assert doc.meta["global.Entity"].startswith("eid")
         doc.meta["global.Entity"] = "GRP" + doc.meta["global.Entity"][3:]
+        # The mentions will be loaded again, so their old versions must not stay in the words.
+        for node in doc.nodes_and_empty:
+            node._mentions = []
         udapi.core.coref.load_coref_from_misc(doc)
         doc.meta["global.Entity"] = "eid" + doc.meta["global.Entity"][3:]
-- 
2.43.0


From 65ab698ea23d91848d94db1eb5b7d6b83fc9c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 035/155] fix: corefud.FixParentheses added words to mentions
 without adding the mentions to the words

---
 udapi/block/corefud/fixparentheses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/fixparentheses.py b/udapi/block/corefud/fixparentheses.py
index bc8e650..f0598d6 100644
--- a/udapi/block/corefud/fixparentheses.py
+++ b/udapi/block/corefud/fixparentheses.py
@@ -18,7 +18,7 @@ class FixParentheses(Block):
                     if mention.words[-1].ord == int(mention.words[-1].ord) and mention.words[-1].next_node and \
                             mention.words[-1].next_node.lemma == pair[1]:
                         next_node = mention.words[-1].next_node
-                        mention.words.append(next_node)
+                        mention.words = mention.words + [next_node]
                         if self.mark:
                             next_node.misc['Mark'] = 1
 
@@ -26,6 +26,6 @@ class FixParentheses(Block):
                 if mention.words[0].ord == int(mention.words[0].ord) and mention.words[0].prev_node \
                         and mention.words[0].prev_node.lemma == pair[0]:
                     prev_node = mention.words[0].prev_node
-                    mention.words.append(prev_node)
+                    mention.words = [prev_node] + mention.words
                     if self.mark:
                         prev_node.misc['Mark'] = 1
-- 
2.43.0


From b2b83e0678efa4fd05acb7bce9cbde55a014b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 036/155] fix: corefud.FixInterleaved kept working with
 mentions it had deleted

---
 udapi/block/corefud/fixinterleaved.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index b4a42a4..a3ba158 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -80,5 +80,5 @@ class FixInterleaved(Block):
                     mA.entity.mentions.remove(mA)
                 except ValueError:
                     pass
-                break
                 deleted.add(mA)
+                break
-- 
2.43.0


From 597d7b88a5d1e67ad4deec32dc4b165ab21149ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 037/155] fix: corefud.MoveHead crashed on mentions headed only
 by empty nodes without non-empty parents

---
 udapi/block/corefud/movehead.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/movehead.py b/udapi/block/corefud/movehead.py
index 00a32e9..bbb3e26 100644
--- a/udapi/block/corefud/movehead.py
+++ b/udapi/block/corefud/movehead.py
@@ -53,12 +53,13 @@ class MoveHead(Block):
                     if 'warn' in self.bugs:
                         logging.warning(f"could not find non-empty parent of {empty_node} for mention {mention.head}")
                     if 'mark' in self.bugs:
-                        node.misc['Bug'] = 'no-parent-of-empty'
+                        empty_node.misc['Bug'] = 'no-parent-of-empty'
             non_empty.sort()
 
         # Fourth, check if there is a node within the enh_heads governing all the mention nodes
         # and forming thus a "gappy treelet", where the head is clearly the "highest" node.
-        (highest, added_nodes) = find_minimal_common_treelet(*non_empty)
+        # No such node is known if all the enh_heads are empty nodes without any non-empty parent.
+        highest = find_minimal_common_treelet(*non_empty)[0] if non_empty else None
         if highest in enh_heads:
             return highest, 'gappy'
         if highest in mwords:
-- 
2.43.0


From 0c90f1529646de8d0ba1d23fad2d18a0ca89c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 038/155] fix: if_empty_tree was applied also to trees in zones
 which were not selected

---
 udapi/core/block.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index d293df6..2f08c8c 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -143,6 +143,9 @@ class Block(object):
         pass
 
     def _should_process_tree(self, tree):
+        # Trees in other than the selected zones must not be touched, even if they are empty.
+        if self.zones != 'all' and tree.zone not in self.zones.split(','):
+            return False
         if self.if_empty_tree != 'process' and not tree.descendants:
             if self.if_empty_tree == 'skip':
                 return False
@@ -157,10 +160,4 @@ class Block(object):
             else:
                 raise ValueError("Unknown value for if_empty_tree: "
                                  + self.if_empty_tree)
-        if self.zones == 'all':
-            return True
-        if self.zones == '' and tree.zone == '':
-            return True
-        if tree.zone in self.zones.split(','):
-            return True
-        return False
+        return True
-- 
2.43.0


From 24d264041c8c81e0fcfbef3552bc9cfc84b84da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 039/155] fix: parameter values such as a superscript digit
 crashed the scenario parser

---
 udapi/core/block.py | 6 +++---
 udapi/core/run.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index 2f08c8c..2005f46 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -101,7 +101,7 @@ class Block(object):
                 if p_entity:
                     self.process_coref_entity(entity)
                 else:
-                    for mention in entity.mentions:
+                    for mention in list(entity.mentions):
                         self.process_coref_mention(mention)
 
         if p_bundle or p_tree or p_node or p_empty_node:
@@ -120,13 +120,13 @@ class Block(object):
                                     for node in tree.descendants:
                                         self.process_node(node)
                                 if p_empty_node:
-                                    for empty_node in tree.empty_nodes:
+                                    for empty_node in list(tree.empty_nodes):
                                         self.process_empty_node(empty_node)
 
     @not_overridden
     def process_coref_entity(self, entity):
         """This method is called on each coreference entity in the document."""
-        for mention in entity.mentions:
+        for mention in list(entity.mentions):
             self.process_coref_mention(mention)
 
     @not_overridden
diff --git a/udapi/core/run.py b/udapi/core/run.py
index 8ac63e1..1a4e9d6 100644
--- a/udapi/core/run.py
+++ b/udapi/core/run.py
@@ -60,7 +60,7 @@ def _parse_command_line_arguments(scenario):
                 'Block attribute pair %r without a prior block name', token)
 
         # Put it as a new argument for the previous block
-        if attribute_value.isdigit():
+        if attribute_value.isdecimal():
             attribute_value = int(attribute_value)
         block_args[-1][attribute_name] = attribute_value
 
-- 
2.43.0


From aa547d16fe8837bad6cb120d7ff524858b2aca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 040/155] fix: a reader got an extra empty document if the
 other readers were finished earlier

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index e8ad5d2..a93509d 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -229,6 +229,10 @@ class BaseReader(Block):
                         continue
                     self.finished = (not self.files.has_next_file()
                                      or bool(self.max_docs and self._docs_loaded >= self.max_docs))
+                    # The next document may be loaded with try_fast_load() (e.g. if all other readers are finished),
+                    # which expects that the current file has not been read yet.
+                    if not self.finished:
+                        self.next_filehandle()
                     break
                 if trees_loaded == 0:
                     document.meta['loaded_from'] = self.filename
-- 
2.43.0


From 4428de9cf792faaa611681eb5d74606d18b54e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 041/155] fix: a reader with filehandle= delivered an extra
 empty document

---
 udapi/core/basereader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index a93509d..582372a 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -19,6 +19,9 @@ class BaseReader(Block):
         if filehandle is not None:
             files = None
         self.files = Files(filenames=files, filehandle=filehandle, encoding=encoding)
+        if filehandle is not None:
+            # The given filehandle is the current file and there is no next file.
+            self.files.filenames = []
         self.zone = zone
         self.bundles_per_doc = bundles_per_doc
         self._buffer = None
-- 
2.43.0


From a9b6e5b5758a985ff5b5b3e8dd6886898ef3fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 042/155] fix: read.AddText crashed at the end of a text
 without a final newline; filehandle=

---
 udapi/block/read/addtext.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 040174b..7e9ecbf 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -27,13 +27,15 @@ class AddText(BaseReader):
         return False
 
     def process_document(self, document):
-        filehandle = self.next_filehandle()
+        filehandle = self.filehandle
+        if filehandle is None or self.file_number:
+            filehandle = self.next_filehandle()
         if filehandle is None:
             self.finished = True
             return
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
-        while i <= end and text[i].isspace():
+        while i < end and text[i].isspace():
             i += 1
 
         for bundle in document.bundles:
@@ -44,10 +46,10 @@ class AddText(BaseReader):
             for node in root.token_descendants:
                 if text[i:i+len(node.form)] == node.form:
                     i += len(node.form)
-                    if i > end or text[i].isspace():
+                    if i >= end or text[i].isspace():
                         del node.misc['SpaceAfter']
                         was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
-                        while i <= end and text[i].isspace():
+                        while i < end and text[i].isspace():
                             i += 1
                     else:
                         node.misc['SpaceAfter'] = 'No'
-- 
2.43.0


From eb4bbbbebb67da880dfd89fa50f67a71c9591a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 043/155] fix: eval blocks: files=results.txt failed, stdout
 was not restored, crashes if nothing was evaluated

---
 udapi/block/eval/conll17.py | 12 +++++++++++-
 udapi/block/eval/conll18.py | 12 +++++++++++-
 udapi/block/eval/f1.py      | 17 +++++++++++++----
 udapi/block/eval/parsing.py | 16 ++++++++++++----
 4 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/udapi/block/eval/conll17.py b/udapi/block/eval/conll17.py
index 61e8638..c237b0a 100644
--- a/udapi/block/eval/conll17.py
+++ b/udapi/block/eval/conll17.py
@@ -157,12 +157,21 @@ class Conll17(BaseWriter):
             scores = [str(count[s]) for s in ('pred', 'gold', 'Words', 'LAS')]
             print(' '.join(scores))
 
+    def before_process_document(self, document):
+        # The results are printed only in process_end, so don't ask for one output file per document.
+        if self.print_raw:
+            super().before_process_document(document)
+
+    def after_process_document(self, document):
+        if self.print_raw:
+            super().after_process_document(document)
+
     def process_end(self):
         if not self.print_results:
             return
 
         # Redirect the default filehandle to the file specified by self.files
-        self.before_process_document(None)
+        super().before_process_document(None)
 
         metrics = ('Words', 'UPOS', 'XPOS', 'Feats', 'Lemma', 'UAS', 'LAS', 'CLAS')
         print("Metric     | Precision |    Recall |  F1 Score | AligndAcc")
@@ -180,6 +189,7 @@ class Conll17(BaseWriter):
             fscore = 2 * correct / (pred + gold) if pred + gold else 0
             print("{:11}|{:10.2f} |{:10.2f} |{:10.2f} |{:10.2f}".format(
                 metric, 100 * precision, 100 * recall, 100 * fscore, 100 * alignacc))
+        super().after_process_document(None)
 
 
 def prec_rec_f1(correct, pred, gold, alig=0):
diff --git a/udapi/block/eval/conll18.py b/udapi/block/eval/conll18.py
index 22f42a4..5ea3a53 100644
--- a/udapi/block/eval/conll18.py
+++ b/udapi/block/eval/conll18.py
@@ -199,12 +199,21 @@ class Conll18(BaseWriter):
                 return False
         return True
 
+    def before_process_document(self, document):
+        # The results are printed only in process_end, so don't ask for one output file per document.
+        if self.print_raw:
+            super().before_process_document(document)
+
+    def after_process_document(self, document):
+        if self.print_raw:
+            super().after_process_document(document)
+
     def process_end(self):
         if not self.print_results:
             return
 
         # Redirect the default filehandle to the file specified by self.files
-        self.before_process_document(None)
+        super().before_process_document(None)
 
         metrics = ('Words', 'UPOS', 'XPOS', 'UFeats', 'AllTags',
                    'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX')
@@ -229,6 +238,7 @@ class Conll18(BaseWriter):
                 alignacc = "{:10.2f}".format(100 * alignacc) if metric != 'Words' else ""
                 print("{:11}|{:10.2f} |{:10.2f} |{:10.2f} |{}".format(
                     metric, 100 * precision, 100 * recall, 100 * fscore, alignacc))
+        super().after_process_document(None)
 
 
 def prec_rec_f1(correct, pred, gold, alig=0):
diff --git a/udapi/block/eval/f1.py b/udapi/block/eval/f1.py
index e488977..75d7722 100644
--- a/udapi/block/eval/f1.py
+++ b/udapi/block/eval/f1.py
@@ -163,9 +163,16 @@ class F1(BaseWriter):
         recall = self.correct / gold
         return 2 * precision * recall / ((precision + recall) or 1)
 
+    def before_process_document(self, document):
+        # The results are printed only in process_end, so don't ask for one output file per document.
+        pass
+
+    def after_process_document(self, document):
+        pass
+
     def process_end(self):
         # Redirect the default filehandle to the file specified by self.files
-        self.before_process_document(None)
+        super().before_process_document(None)
 
         if not self.visited_zones:
             logging.warning('Block eval.F1 was not applied to any zone. '
@@ -174,9 +181,10 @@ class F1(BaseWriter):
             logging.warning('Block eval.F1 was applied to more than one zone %s. '
                             'The results are mixed together. Check the parameter zones=%s',
                             list(self.visited_zones.elements()), self.zones)
-        print('Comparing predicted trees (zone=%s) with gold trees (zone=%s), sentences=%d'
-              % (next(self.visited_zones.elements()), self.gold_zone,
-                 self.visited_zones.most_common(1)[0][1]))
+        if self.visited_zones:
+            print('Comparing predicted trees (zone=%s) with gold trees (zone=%s), sentences=%d'
+                  % (next(self.visited_zones.elements()), self.gold_zone,
+                     self.visited_zones.most_common(1)[0][1]))
         if self.details:
             print('=== Details ===')
             print('%-10s %5s %5s %5s %6s  %6s  %6s'
@@ -199,6 +207,7 @@ class F1(BaseWriter):
         f1 = 2 * precision * recall / ((precision + recall) or 1)
         print("%-9s = %6.2f%%\n" * 3
               % ('precision', 100 * precision, 'recall', 100 * recall, 'F1', 100 * f1), end='')
+        super().after_process_document(None)
 
 
 # difflib.SequenceMatcher does not compute LCS, so let's implement it here
diff --git a/udapi/block/eval/parsing.py b/udapi/block/eval/parsing.py
index 6923c1f..92ce367 100644
--- a/udapi/block/eval/parsing.py
+++ b/udapi/block/eval/parsing.py
@@ -30,11 +30,19 @@ class Parsing(BaseWriter):
                 if pred_node.udeprel == gold_node.udeprel:
                     self.correct_ulas += 1
 
+    def before_process_document(self, document):
+        # The results are printed only in process_end, so don't ask for one output file per document.
+        pass
+
+    def after_process_document(self, document):
+        pass
 
     def process_end(self):
         # Redirect the default filehandle to the file specified by self.files
-        self.before_process_document(None)
+        super().before_process_document(None)
         print('nodes = %d' % self.total)
-        print('UAS           = %6.2f' % (100 * self.correct_uas / self.total))
-        print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / self.total))
-        print('LAS (udeprel) = %6.2f' % (100 * self.correct_ulas / self.total))
+        total = self.total or 1  # prevent division by zero
+        print('UAS           = %6.2f' % (100 * self.correct_uas / total))
+        print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / total))
+        print('LAS (udeprel) = %6.2f' % (100 * self.correct_ulas / total))
+        super().after_process_document(None)
-- 
2.43.0


From 0adfa5b8b721a0539871b0ec50239d87a2cab5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 044/155] fix: writers: don't close the user's filehandle after
 the first document, restore stdout after a failure

---
 udapi/core/basewriter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 071ec12..60949ec 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -107,6 +107,19 @@ class BaseWriter(Block):
 
     def after_process_document(self, document):
         sys.stdout.flush()
+        self._restore_stdout()
+
+    def _restore_stdout(self):
         if sys.stdout != self.orig_stdout:
-            sys.stdout.close()
+            # A filehandle provided by the user may be needed for more documents (or reading the output).
+            if self.orig_files != '<filehandle>':
+                sys.stdout.close()
             sys.stdout = self.orig_stdout
+
+    def apply_on_document(self, document):
+        try:
+            super().apply_on_document(document)
+        except BaseException:
+            # Don't leave stdout redirected if the writer failed.
+            self._restore_stdout()
+            raise
-- 
2.43.0


From ad65c3dd7a40bb696768ff54276a0fc88217004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 045/155] fix: overwriting a compressed file wrote plain text
 into it

---
 udapi/core/basewriter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 60949ec..1b12510 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -1,6 +1,9 @@
 """BaseWriter is the base class for all writer blocks."""
 import sys
+import bz2
+import gzip
 import logging
+import lzma
 import os
 from pathlib import Path
 
@@ -103,7 +106,9 @@ class BaseWriter(Block):
 
     def _open(self, filename):
         Path(filename).parent.mkdir(parents=True, exist_ok=True)
-        return open(filename, 'wt', encoding=self.encoding, newline=self.newline)
+        # Compress the output according to the extension, so that it can be read again (see udapi.core.files).
+        myopen = {'.gz': gzip.open, '.xz': lzma.open, '.bz2': bz2.open}.get(Path(filename).suffix, open)
+        return myopen(filename, 'wt', encoding=self.encoding, newline=self.newline)
 
     def after_process_document(self, document):
         sys.stdout.flush()
-- 
2.43.0


From bb10bc943945e8856900413d94530329e538bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 046/155] fix: node.draw(files=...) and bundle.draw(files=...)
 ignored the file

---
 udapi/core/bundle.py | 8 +++++++-
 udapi/core/node.py   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 0a637f0..504c26d 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -115,7 +115,13 @@ class Bundle(object):
 
     def draw(self, **kwargs):
         """Pretty print the trees using TextModeTrees."""
-        TextModeTrees(**kwargs).process_bundle(self)
+        kwargs['print_doc_meta'] = False
+        writer = TextModeTrees(**kwargs)
+        writer.before_process_document(None)
+        try:
+            writer.process_bundle(self)
+        finally:
+            writer.after_process_document(None)
 
     @property
     def nodes(self):
diff --git a/udapi/core/node.py b/udapi/core/node.py
index b851156..9d0d34f 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -882,7 +882,13 @@ class Node(object):
         attributes: to override the default list 'form,upos,deprel'
         See TextModeTrees for details and other parameters.
         """
-        TextModeTrees(**kwargs).process_tree(self)
+        kwargs['print_doc_meta'] = False
+        writer = TextModeTrees(**kwargs)
+        writer.before_process_document(None)
+        try:
+            writer.process_tree(self)
+        finally:
+            writer.after_process_document(None)
 
     def address(self):
         """Return full (document-wide) id of the node.
-- 
2.43.0


From d4f87ca2bc561497dac7cebe4c5727a21251d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:13 +0000
Subject: [PATCH 047/155] fix: ords of empty nodes x.10 and higher are hashable
 (write.TextModeTrees crashed on them)

---
 udapi/core/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 9d0d34f..6f23727 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1117,6 +1117,9 @@ class OrdTuple:
         else:
             raise ValueError(f"OrdTuple cannot be compared with {type(other)}")
 
+    def __hash__(self):
+        return hash(self._key)
+
     def __lt__(self, other):
         if isinstance(other, int):
             return self._key < (other, 0)
-- 
2.43.0


From a2ef90a469dd77a77293ab1849f1b97f05fbf9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 048/155] fix: write.Vislcg and write.Tikz crashed on words
 without XPOS, UPOS or DEPREL

---
 udapi/block/write/tikz.py   | 2 +-
 udapi/block/write/vislcg.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 4007173..dd20b8c 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -117,7 +117,7 @@ class Tikz(BaseWriter):
 
         lines = ['' for _ in self.node_attributes]
         for node in nodes:
-            values = [self._tex_escape(v) for v in node.get_attrs(self.node_attributes)]
+            values = [self._tex_escape(v) for v in node.get_attrs(self.node_attributes, undefs='')]
             max_len = max(len(value) for value in values)
             for index, value in enumerate(values):
                 if node.ord > 1:
diff --git a/udapi/block/write/vislcg.py b/udapi/block/write/vislcg.py
index acdf1e8..1e7b7c0 100644
--- a/udapi/block/write/vislcg.py
+++ b/udapi/block/write/vislcg.py
@@ -72,6 +72,8 @@ class Vislcg(BaseWriter):
 
     @staticmethod
     def _escape(string):
+        if string is None:
+            return '_'
         return ''.join(ESCAPE_TABLE.get(c, c) for c in string)
 
     def _node(self, node):
@@ -80,6 +82,6 @@ class Vislcg(BaseWriter):
         feats = str(node.feats).replace('|', ' ')
         if feats != '_':
             attrs.append(self._escape(feats))
-        attrs.append('@' + node.deprel)
+        attrs.append('@' + (node.deprel or '_'))
         attrs.append('#%d->%d' % (node.ord, node.parent.ord))
         return ' '.join(attrs)
-- 
2.43.0


From 84083499c3cb9c073346f635829f29a441a325ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:53 +0000
Subject: [PATCH 049/155] fix: write.Sdparse crashed on words without UPOS

---
 udapi/block/write/sdparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/sdparse.py b/udapi/block/write/sdparse.py
index 1348773..b642861 100644
--- a/udapi/block/write/sdparse.py
+++ b/udapi/block/write/sdparse.py
@@ -88,7 +88,7 @@ class Sdparse(BaseWriter):
     def _node(self, node):
         string = self._escape(node.form)
         if self.print_upos:
-            string += '/' + node.upos
+            string += '/' + (node.upos or '_')
         if self.print_feats:
             feats = str(node.feats)
             if feats != '_':
-- 
2.43.0


From f5c4cbd4506f5697a067682d6cdcfe0c0b319286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 050/155] fix: sent_id, bundle_id and zone setters: IDs of
 unnamed zones next to named ones, refused zones, the same zone

---
 udapi/core/bundle.py | 9 +++------
 udapi/core/root.py   | 6 ++++--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 504c26d..8d81856 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,11 +32,8 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
-        if len(self.trees) == 1 and self.trees[0].zone == '':
-            self.trees[0]._sent_id = bundle_id
-        else:
-            for tree in self.trees:
-                tree._sent_id = bundle_id + '/' + tree.zone  # pylint: disable=protected-access
+        for tree in self.trees:
+            tree._sent_id = bundle_id + ('/' + tree.zone if tree.zone else '')  # pylint: disable=protected-access
 
     def __str__(self):
         if self._bundle_id is None:
@@ -78,7 +75,7 @@ class Bundle(object):
 
     def check_zone(self, new_zone):
         """Raise an exception if the zone is invalid or already exists."""
-        if not VALID_ZONE_REGEX.match(new_zone):
+        if not VALID_ZONE_REGEX.fullmatch(new_zone):
             raise ValueError("'{}' is not a valid zone name ({})".format(
                 new_zone, VALID_ZONE_REGEX.pattern))
         if new_zone == 'all':
diff --git a/udapi/core/root.py b/udapi/core/root.py
index bddf806..d0af80f 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -55,9 +55,11 @@ class Root(Node):
     def sent_id(self, sent_id):
         if self._bundle is not None:
             parts = sent_id.split('/', 1)
-            self._bundle.bundle_id = parts[0]
+            # Change the zone first, it may be refused.
             if len(parts) == 2:
                 self.zone = parts[1]
+            self._bundle.bundle_id = parts[0]
+            sent_id = parts[0] + ('/' + self.zone if self.zone else '')
         self._sent_id = sent_id
 
     def address(self):
@@ -92,7 +94,7 @@ class Root(Node):
     @zone.setter
     def zone(self, zone):
         """Specify which zone the root belongs to."""
-        if self._bundle:
+        if self._bundle and zone != self._zone:
             self._bundle.check_zone(zone)
         self._zone = zone
         slashzone = '/' + zone if zone else ''
-- 
2.43.0


From 971b5607e339de54e9a913a2f5079b8d1bf103aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 051/155] fix: bundle numbers after removing, splitting and
 segmenting sentences (1-based as in create_bundle)

---
 udapi/block/segment/simple.py     | 2 ++
 udapi/block/udpipe/base.py        | 2 ++
 udapi/block/util/splitsentence.py | 4 ++--
 udapi/core/bundle.py              | 2 +-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 58be9b6..127d738 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -89,3 +89,5 @@ class Simple(Block):
                             new_bundle.create_tree(tree.zone).text = sentence
                             new_bundles.append(new_bundle)
         doc.bundles = new_bundles
+        for number, bundle in enumerate(new_bundles, 1):
+            bundle.number = number
diff --git a/udapi/block/udpipe/base.py b/udapi/block/udpipe/base.py
index 069fc9f..dbb407a 100644
--- a/udapi/block/udpipe/base.py
+++ b/udapi/block/udpipe/base.py
@@ -187,6 +187,8 @@ class Base(Block):
                     else:
                         raise ValueError(f"Unimplemented tokenize={tok} tag={tag} parse={par} resegment={reseg}")
         doc.bundles = new_bundles
+        for number, bundle in enumerate(new_bundles, 1):
+            bundle.number = number
 
 '''
 Udapi::Block::UDPipe::Base - tokenize, tag and parse into UD
diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index b6ca57d..3940765 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -85,7 +85,7 @@ class SplitSentence(Block):
                     self.make_zeros_roots(root)
                     root.text = root.compute_text()
                     # Update the bundle numbers of the new bundles and all bundles after them.
-                    updated_no = bundle_no + 1
+                    updated_no = bundle_no + 2
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
@@ -101,7 +101,7 @@ class SplitSentence(Block):
                 new_bundle_no = bundle_no + 1
                 document.bundles.pop()
                 document.bundles.insert(new_bundle_no, new_bundle)
-                updated_no = new_bundle_no
+                updated_no = new_bundle_no + 1
                 for b in document.bundles[new_bundle_no:]:
                     b.number = updated_no
                     updated_no += 1
diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 8d81856..a242309 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -103,7 +103,7 @@ class Bundle(object):
     def remove(self):
         """Remove a bundle from the document."""
         self._document.bundles = [bundle for bundle in self._document.bundles if bundle != self]
-        for i, bundle in enumerate(self._document.bundles):
+        for i, bundle in enumerate(self._document.bundles, 1):
             bundle.number = i
 
     def address(self):
-- 
2.43.0


From 9a6dde075b4bf43287e94afb58055a5baaf17494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 052/155] fix: document.create_bundle() assigned IDs of
 existing bundles with numeric IDs

---
 udapi/core/bundle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index a242309..199fa30 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,6 +32,9 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
+        # Numeric IDs must not be assigned again by document.create_bundle().
+        if self._document is not None and bundle_id.isdecimal() and len(bundle_id) < 20:
+            self._document._highest_bundle_id = max(self._document._highest_bundle_id, int(bundle_id))
         for tree in self.trees:
             tree._sent_id = bundle_id + ('/' + tree.zone if tree.zone else '')  # pylint: disable=protected-access
 
-- 
2.43.0


From 8f34d619958f9d541afba80ed2150fe4ffebfe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 053/155] fix: util.JoinSentence sent_id=... never found the
 previous sentence, util.SplitSentence and JoinSentence with numeric IDs and
 values, split before the first word

---
 udapi/block/util/joinsentence.py  | 7 +++++--
 udapi/block/util/splitsentence.py | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 578f386..19cb0c1 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -33,9 +33,10 @@ class JoinSentence(Block):
         else:
             if not sent_id:
                 logging.fatal('Missing parameter sent_id')
-        self.sent_id = sent_id
+        # Values such as misc_value=1 are converted to integers when parsing the scenario.
+        self.sent_id = None if sent_id is None else str(sent_id)
         self.misc_name = misc_name
-        self.misc_value = misc_value
+        self.misc_value = None if misc_value is None else str(misc_value)
 
     def process_document(self, document):
         previous_tree = None
@@ -75,3 +76,5 @@ class JoinSentence(Block):
                 bundle.remove()
                 # We have found our sentence. No need to process the rest of the document.
                 break
+            else:
+                previous_tree = bundle.get_tree()
diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index 3940765..290a830 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -34,10 +34,11 @@ class SplitSentence(Block):
                 logging.fatal('Missing parameter sent_id')
             if not word_id:
                 logging.fatal('Missing parameter word_id')
-        self.sent_id = sent_id
+        # Values such as misc_value=1 are converted to integers when parsing the scenario.
+        self.sent_id = None if sent_id is None else str(sent_id)
         self.word_id = word_id
         self.misc_name = misc_name
-        self.misc_value = misc_value
+        self.misc_value = None if misc_value is None else str(misc_value)
 
     def process_document(self, document):
         for bundle_no, bundle in enumerate(document.bundles):
@@ -52,7 +53,8 @@ class SplitSentence(Block):
                 logging.fatal('Cannot process bundles that do not have the zone with empty zone id')
             if self.misc_name:
                 root = bundle.get_tree()
-                split_points = [n for n in root.descendants if n.ord > 1 and n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value]
+                split_points = [n for n in root.descendants if n.ord > 1 and n.misc[self.misc_name]
+                                and self.misc_value in (None, n.misc[self.misc_name])]
                 if split_points:
                     # Create as many new bundles as there are split points.
                     n_new = len(split_points)
-- 
2.43.0


From def7446473247472da943cc77bc70a8d75654102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 054/155] fix: util.Split left the bundles in the original
 document (bundle.document, number, new bundle IDs, coreference)

---
 udapi/block/util/split.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 6eb2f65..83eb9a8 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -22,6 +22,7 @@ class Split(BaseReader):
         self.parts = parts
         self.bundles_per_doc = bundles_per_doc
         self.buffer = None
+        self.highest_bundle_id = 0
 
     @staticmethod
     def is_multizone_reader():
@@ -36,4 +37,11 @@ class Split(BaseReader):
         self.buffer.extend(document.bundles)
         document.bundles = self.buffer[:self.bundles_per_doc]
         self.buffer = self.buffer[self.bundles_per_doc:]
+        # The bundles now belong to another document.
+        # pylint: disable=protected-access
+        for number, bundle in enumerate(document.bundles, 1):
+            bundle._document = document
+            bundle.number = number
+        self.highest_bundle_id = max(self.highest_bundle_id, document._highest_bundle_id)
+        document._highest_bundle_id = self.highest_bundle_id
         self.finished = not self.buffer
-- 
2.43.0


From b31105e4f0449ec68d9e2e1a5062ca43ea0f8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 055/155] fix: segment.Merge left gaps in bundle numbers,
 crashed on empty documents and trees

---
 udapi/block/segment/merge.py | 6 +++++-
 udapi/core/root.py           | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 9ada45f..9f9c0d0 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -32,6 +32,8 @@ class Merge(Block):
 
     def process_document(self, doc):
         old_bundles = doc.bundles
+        if not old_bundles:
+            return
         prev_bundle = old_bundles[0]
         new_bundles = [prev_bundle]
         for bundle in old_bundles[1:]:
@@ -43,4 +45,6 @@ class Merge(Block):
             else:
                 new_bundles.append(bundle)
                 prev_bundle = bundle
-        doc.bundles = new_bundles
\ No newline at end of file
+        doc.bundles = new_bundles
+        for number, bundle in enumerate(new_bundles, 1):
+            bundle.number = number
diff --git a/udapi/core/root.py b/udapi/core/root.py
index d0af80f..b8d6bbd 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -284,6 +284,8 @@ class Root(Node):
 
     def steal_nodes(self, nodes):
         """Move nodes from another tree to this tree (append)."""
+        if not nodes:
+            return
         old_root = nodes[0].root
         for node in nodes[1:]:
             if node.root != old_root:
-- 
2.43.0


From a49e4caf1ddd50b8b22075169ef65cdcccfd390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 056/155] fix: transform.Deproj label=deprel crashed on words
 without deprel

---
 udapi/block/transform/deproj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/transform/deproj.py b/udapi/block/transform/deproj.py
index 581f5a6..ecce06c 100644
--- a/udapi/block/transform/deproj.py
+++ b/udapi/block/transform/deproj.py
@@ -19,7 +19,7 @@ class Deproj(Block):
         if self.label == 'misc':
             label = node.misc['pproj']
         elif self.label == 'deprel':
-            parts = node.sdeprel.split('+', 1)
+            parts = (node.sdeprel or '').split('+', 1)
             if len(parts) == 2:
                 label = parts[1]
                 node.deprel = node.udeprel + (':' + parts[0] if parts[0] else '')
-- 
2.43.0


From 8f8527aab25a38b5f3d50a33da6ca4460824de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 057/155] fix: transform.Proj left non-projective edges (caused
 by lifting other words)

---
 udapi/block/transform/proj.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/udapi/block/transform/proj.py b/udapi/block/transform/proj.py
index 6e284b4..bb6fa3f 100644
--- a/udapi/block/transform/proj.py
+++ b/udapi/block/transform/proj.py
@@ -29,9 +29,13 @@ class Proj(Block):
         self.label = label
 
     def process_tree(self, tree):
+        lifted = set()
         nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
-        for nonproj in sorted(nonprojs, key=lambda info: info[0]):
-            self.lift(nonproj[1])
+        # Lifting a subtree may make other edges (so far projective) non-projective.
+        while nonprojs:
+            for nonproj in sorted(nonprojs, key=lambda info: info[0]):
+                self.lift(nonproj[1], lifted)
+            nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
 
     def nonproj_info(self, node):
         if self.lifting_order == 'shortest':
@@ -45,7 +49,7 @@ class Proj(Block):
         node.parent = orig_parent
         return (-depth, node)
 
-    def lift(self, node):
+    def lift(self, node, lifted):
         orig_parent = node.parent
         depth = 0
         while node.is_nonprojective():
@@ -53,7 +57,10 @@ class Proj(Block):
             depth += 1
         if depth == 0:
             return
-        self.mark(node, orig_parent.udeprel)
+        # If lifted again, keep the mark of the original parent.
+        if node not in lifted:
+            lifted.add(node)
+            self.mark(node, orig_parent.udeprel)
 
     def mark(self, node, label):
         if self.label == 'misc':
-- 
2.43.0


From 9f91541dbf7735c918c0c70042bdaa9822561010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 058/155] fix: enhanced dependencies not read yet pointed to
 wrong nodes after words were removed, shifted or moved to another tree

---
 udapi/core/node.py | 15 +++++++++------
 udapi/core/root.py | 21 +++++++++++++++++++++
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 6f23727..4b26271 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -275,10 +275,11 @@ class Node(object):
         """
         if self._deps is None:
             # Create a list of secondary dependencies.
-            self._deps = list()
+            deps = list()
 
             if self._raw_deps == '_':
-                return self._deps
+                self._deps = deps
+                return deps
 
             # Obtain a list of all nodes in the dependency tree.
             nodes = [self._root] + self._root._descendants
@@ -294,7 +295,8 @@ class Node(object):
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
                     parent = nodes[int(head)]
-                self._deps.append({'parent': parent, 'deprel': deprel})
+                deps.append({'parent': parent, 'deprel': deprel})
+            self._deps = deps
 
         return self._deps
 
@@ -509,6 +511,7 @@ class Node(object):
             `warn` means to issue a warning if any children are present and delete them.
             `rehang_warn` means to rehang and warn:-).
         """
+        self._root._deserialize_deps()
         self._parent._children.remove(self)
         removed = {self} if children and children.startswith('rehang') else {self, *self.unordered_descendants()}
 
@@ -571,7 +574,7 @@ class Node(object):
             if empty_follows:
                 self._root._renumber_empty_nodes(lambda empty, _: empty_follows[empty]._ord)
 
-        # Delete (already deserialized) enhanced dependencies on the removed nodes.
+        # Delete enhanced dependencies on the removed nodes.
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
                 n._deps = [dep for dep in n._deps if dep['parent'] not in removed]
@@ -579,6 +582,7 @@ class Node(object):
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
         all_nodes = self._root._descendants
+        self._root._deserialize_deps()
 
         # Moving a single node can be faster than nodes_to_move = [self]
         if without_children or not self._children:
@@ -1068,8 +1072,7 @@ class EmptyNode(Node):
         # Enhanced dependencies stored as strings refer to the original ords of empty nodes,
         # so they must be deserialized before the ords are changed.
         if self in self._root.empty_nodes:
-            for n in self._root.empty_nodes + self._root._descendants:
-                n.deps  # pylint: disable=pointless-statement
+            self._root._deserialize_deps()
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
diff --git a/udapi/core/root.py b/udapi/core/root.py
index b8d6bbd..3b0e018 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -266,6 +266,19 @@ class Root(Node):
     def descendants_and_empty(self):
         return sorted(self._descendants + self.empty_nodes)
 
+    def _deserialize_deps(self):
+        """Deserialize enhanced dependencies of all nodes.
+
+        Enhanced dependencies stored as strings refer to the original ords,
+        so this must be called before the ords of nodes in this tree are changed.
+        """
+        for node in self._descendants + self.empty_nodes:
+            if node._deps is None and node._raw_deps != '_':
+                try:
+                    node.deps  # pylint: disable=pointless-statement
+                except (ValueError, IndexError):
+                    pass  # keep the invalid string
+
     def _renumber_empty_nodes(self, new_major):
         """Change the integer part of ords of empty nodes (after changes in the word order).
 
@@ -290,6 +303,8 @@ class Root(Node):
         for node in nodes[1:]:
             if node.root != old_root:
                 raise ValueError("steal_nodes(nodes) was called with nodes from several trees")
+        self._deserialize_deps()
+        old_root._deserialize_deps()
         nodes = sorted(nodes)
         whole_tree = nodes == old_root.descendants
         new_ord = len(self._descendants)
@@ -345,6 +360,12 @@ class Root(Node):
                 empty._root, empty._ord = empty_root, _key_to_ord(major, minor)
                 empty_root.empty_nodes.append(empty)
         self._descendants += nodes
+        # Enhanced dependencies on nodes in the other tree are rehanged to the root as well.
+        for root in self, old_root:
+            for node in root._descendants + root.empty_nodes:
+                for dep in node._deps or ():
+                    if dep['parent']._root is not root:
+                        dep['parent'] = root
         # pylint: enable=protected-access
 
     def flatten(self, deprel='root'):
-- 
2.43.0


From f6ceda2d00d9e03e342bbb7e44281dc14907af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 059/155] fix: util.Wc crashed if the first bundle contains no
 trees (e.g. after util.Filter)

---
 udapi/block/util/wc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/wc.py b/udapi/block/util/wc.py
index 9920d0b..81019b8 100644
--- a/udapi/block/util/wc.py
+++ b/udapi/block/util/wc.py
@@ -23,7 +23,7 @@ class Wc(Block):
         self.mwts += mwtoks
         self.tokens += len(tree.token_descendants) if mwtoks else len(tree.descendants)
         self.empty += len(tree.empty_nodes)
-        if tree.newdoc or tree == tree.document[0].trees[0]:
+        if tree.newdoc or tree == next(tree.document.trees):
             self.docs += 1
         if tree.newpar:
             self.paragraphs += 1
-- 
2.43.0


From 4951429948a11004624823db9f875f4ce70a45b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 060/155] fix: util.Filter ignored keep_subtree and keep_node
 if keep_tree_if_node was used

---
 udapi/block/util/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/filter.py b/udapi/block/util/filter.py
index 811973e..1603674 100644
--- a/udapi/block/util/filter.py
+++ b/udapi/block/util/filter.py
@@ -111,10 +111,10 @@ class Filter(Block):
                     if self.mark:
                         node.misc['Mark'] = self.mark
                     else:
-                        return
+                        break
             if not found:
                 tree.remove()
-            return
+                return
 
         if self.keep_subtree is not None:
             kept_subtrees = []
-- 
2.43.0


From d46eb45d8835b8715680157baffe251f64c6c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 061/155] fix: util.Split parts=N produced less than N parts

---
 udapi/block/util/split.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 83eb9a8..53188ff 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -22,6 +22,7 @@ class Split(BaseReader):
         self.parts = parts
         self.bundles_per_doc = bundles_per_doc
         self.buffer = None
+        self.remaining_parts = parts
         self.highest_bundle_id = 0
 
     @staticmethod
@@ -32,11 +33,15 @@ class Split(BaseReader):
         if not self.buffer:
             self.buffer = document.bundles
             document.bundles = []
-            if self.bundles_per_doc is None:
-                self.bundles_per_doc = math.ceil(len(self.buffer) / self.parts)
+            self.remaining_parts = self.parts
         self.buffer.extend(document.bundles)
-        document.bundles = self.buffer[:self.bundles_per_doc]
-        self.buffer = self.buffer[self.bundles_per_doc:]
+        size = self.bundles_per_doc
+        if size is None:
+            # Prevent e.g. splitting 5 bundles to 4 parts into just 3 documents with 2+2+1 bundles.
+            size = math.ceil(len(self.buffer) / self.remaining_parts)
+            self.remaining_parts -= 1
+        document.bundles = self.buffer[:size]
+        self.buffer = self.buffer[size:]
         # The bundles now belong to another document.
         # pylint: disable=protected-access
         for number, bundle in enumerate(document.bundles, 1):
-- 
2.43.0


From d9d25211916789d67a7e57ed78313a26d2249b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 062/155] fix: util.See crashed on documents without nodes,
 printed -1 values if no node matched

---
 udapi/block/util/see.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/util/see.py b/udapi/block/util/see.py
index 9a895b8..4a87639 100644
--- a/udapi/block/util/see.py
+++ b/udapi/block/util/see.py
@@ -105,12 +105,12 @@ class See(Block):
         print("matches %d out of %d nodes (%.1f%%) in %d out of %d trees (%.1f%%)"
               % (self.overall['matching_nodes'],
                  self.overall['nodes'],
-                 self.overall['matching_nodes'] * 100 / self.overall['nodes'],
+                 self.overall['matching_nodes'] * 100 / (self.overall['nodes'] or 1),
                  self.overall['matching_trees'],
                  self.overall['trees'],
-                 self.overall['matching_trees'] * 100 / self.overall['trees']))
+                 self.overall['matching_trees'] * 100 / (self.overall['trees'] or 1)))
         for stat in self.stats:
-            vals = len(self.match[stat].keys()) - 1
+            vals = len(self.match[stat].keys() - {'T O T A L'})
             print("=== %s (%d value%s) ===" % (stat, vals, 's' if vals > 1 else ''))
             match_total = self.match[stat]['T O T A L'] or 1
             every_total = self.every[stat]['T O T A L'] or 1
-- 
2.43.0


From 6511687bf0ac7fe4f4b0f939395fa0bbb184bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 063/155] fix: util.MarkDiff aligned more pred words to one
 gold word or crashed

---
 udapi/block/util/markdiff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/util/markdiff.py b/udapi/block/util/markdiff.py
index e102ca9..03ef2ff 100644
--- a/udapi/block/util/markdiff.py
+++ b/udapi/block/util/markdiff.py
@@ -71,7 +71,7 @@ class MarkDiff(Block):
         for diff in diffs:
             edit, pred_lo, pred_hi, gold_lo, gold_hi = diff
             if edit in {'equal', 'replace'}:
-                for i in range(pred_lo, pred_hi):
+                for i in range(pred_lo, min(pred_hi, pred_lo + gold_hi - gold_lo)):
                     alignment[i] = i - pred_lo + gold_lo
                     if self.align in ("both", "from-pred"):
                         pred_nodes[i].misc[self.align_attr] = i - pred_lo + gold_lo + 1
@@ -105,10 +105,10 @@ class MarkDiff(Block):
                         pred_lo, gold_lo = pred_lo + n, gold_lo + n
                     for node in gold_nodes[gold_lo:gold_hi]:
                         self.stats['ADD-WORD'] += 1
-                        self.stats['ADD-LEMMA: ' + node.lemma] += 1
+                        self.stats[f'ADD-LEMMA: {node.lemma}'] += 1
                     for node in pred_nodes[pred_lo:pred_hi]:
                         self.stats['DELETE-WORD'] += 1
-                        self.stats['DELETE-LEMMA: ' + node.lemma] += 1
+                        self.stats[f'DELETE-LEMMA: {node.lemma}'] += 1
 
     def process_end(self):
         if self.print_stats:
-- 
2.43.0


From acd992cb56fb6d53e7d8d71e71e6ccf348665ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 064/155] fix: corefud.Delete empty=1 could store an empty DEPS
 column

---
 udapi/block/corefud/delete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/delete.py b/udapi/block/corefud/delete.py
index 4e68e8d..776e99a 100644
--- a/udapi/block/corefud/delete.py
+++ b/udapi/block/corefud/delete.py
@@ -76,7 +76,7 @@ class Delete(Block):
                     else:
                         newdeps = self._deps_ignore_nodes(node, root.empty_nodes)
                         newdeps_sorted = sorted(set((dep['parent'].ord, dep['deprel']) for dep in newdeps))
-                        node.raw_deps = '|'.join(f"{p}:{r}" for p, r in newdeps_sorted)
+                        node.raw_deps = '|'.join(f"{p}:{r}" for p, r in newdeps_sorted) or '_'
 
                     if '.' in node.misc['Functor'].split(':')[0]:
                         del node.misc['Functor']
-- 
2.43.0


From 3399fe76e39dd72a651b5696a8e65d22478a119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 065/155] fix: transform.Flatten oneroot=1 crashed on empty
 trees

---
 udapi/block/transform/flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/transform/flatten.py b/udapi/block/transform/flatten.py
index d218ad2..5fefff0 100644
--- a/udapi/block/transform/flatten.py
+++ b/udapi/block/transform/flatten.py
@@ -18,7 +18,7 @@ class Flatten(Block):
         for node in tree.descendants:
             node.parent = node.root
             node.deprel = 'root'
-        if self.oneroot:
+        if self.oneroot and tree.descendants:
             first = tree.descendants[0]
             for node in tree.descendants[1:]:
                 node.parent = first
-- 
2.43.0


From e4da110d887786a4b652ea14863fb5ef483cc519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 066/155] fix: segment.Simple split sentences after the
 non-final abbreviation e.g.

---
 udapi/block/segment/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 127d738..91f5994 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -22,7 +22,7 @@ class Simple(Block):
     @staticmethod
     def is_nonfinal_abbrev(token):
         """Is a given token an abbreviation (without the final period) which cannot end a sentence?"""
-        if re.search('(např|e.g.)$', token):
+        if re.search(r'(např|e\.g)$', token):
             return True
         return False
 
-- 
2.43.0


From 81d58ba19334a60cd832baa3b2ccd2c8e9d9668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:25 +0000
Subject: [PATCH 067/155] fix: read.Sentences newdoc_if_empty_line crashed on
 empty files, marked each chunk of bundles_per_doc as a new document

---
 udapi/block/read/sentences.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/udapi/block/read/sentences.py b/udapi/block/read/sentences.py
index 7487d58..24d9981 100644
--- a/udapi/block/read/sentences.py
+++ b/udapi/block/read/sentences.py
@@ -25,6 +25,7 @@ class Sentences(BaseReader):
         self.ignore_empty_lines = ignore_empty_lines
         self.newdoc_if_empty_line = newdoc_if_empty_line
         self.rstrip = rstrip
+        self._last_filehandle = None
         super().__init__(**kwargs)
 
     @staticmethod
@@ -44,7 +45,9 @@ class Sentences(BaseReader):
         # (or '\r\n' if reading a Windows file on Unix machine).
         if line == '':
             return None
-        preceded_by_empty_line = False
+        # The first line in a file also marks a start of new document
+        preceded_by_empty_line = self.filehandle is not self._last_filehandle
+        self._last_filehandle = self.filehandle
         if self.ignore_empty_lines or self.newdoc_if_empty_line:
             while line in {'\n', '\r\n'}:
                 preceded_by_empty_line = True
@@ -56,8 +59,3 @@ class Sentences(BaseReader):
         if self.newdoc_if_empty_line and preceded_by_empty_line:
             root.newdoc = True
         return root
-
-    # The first line in a file also marks a start of new document
-    def after_process_document(self, document):
-        if self.newdoc_if_empty_line:
-            document.bundles[0].trees[0].newdoc = True
-- 
2.43.0


From d23650305d1b2039cf75b2bcc22362f0779feeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 068/155] fix: read.AddSentences ignored all files except for
 the first one

---
 udapi/block/read/addsentences.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/addsentences.py b/udapi/block/read/addsentences.py
index f676fbe..e907f18 100644
--- a/udapi/block/read/addsentences.py
+++ b/udapi/block/read/addsentences.py
@@ -44,6 +44,8 @@ class AddSentences(BaseReader):
 
         for bundle in document.bundles:
             line = self.filehandle.readline()
+            while line == '' and self.files.has_next_file():
+                line = self.next_filehandle().readline()
             if line == '':
                 raise IOError('File does not have enough lines')
             root = bundle.get_tree(zone=self.zone)
@@ -51,4 +53,5 @@ class AddSentences(BaseReader):
                 root.text = line.rstrip()
             else:
                 root.comment += ' ' + self.into + " = " + line.rstrip() + "\n"
-        self.finished = not self.files.has_next_file()
+        # If there are no more sentences, the rest of the files (if any) will never be needed.
+        self.finished = not self.files.has_next_file() or not document.bundles
-- 
2.43.0


From fd655187dfb6fc1074a559c55e6832b74780ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 069/155] fix: read.AddText never finished (endless loop) if
 the text did not match

---
 udapi/block/read/addtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 7e9ecbf..6eb2520 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -33,6 +33,7 @@ class AddText(BaseReader):
         if filehandle is None:
             self.finished = True
             return
+        self.finished = not self.files.has_next_file()
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
         while i < end and text[i].isspace():
@@ -58,4 +59,3 @@ class AddText(BaseReader):
                     logging.warning('Node %s does not match text "%s"', node, text[i:i+20])
                     return
             root.text = root.compute_text()
-        self.finished = not self.files.has_next_file()
-- 
2.43.0


From 76bc4094731cadf520e69c99d0357b7be5b8915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 070/155] fix: read.AddText did not mark newpar after lines
 with trailing spaces

---
 udapi/block/read/addtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 6eb2520..d4eb225 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -49,9 +49,10 @@ class AddText(BaseReader):
                     i += len(node.form)
                     if i >= end or text[i].isspace():
                         del node.misc['SpaceAfter']
-                        was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
+                        start = i
                         while i < end and text[i].isspace():
                             i += 1
+                        was_newpar = '\n\n' in text[start:i]
                     else:
                         node.misc['SpaceAfter'] = 'No'
                         was_newpar = False
-- 
2.43.0


From ef00dda284e22e612dff10d9c9bfcd6ad1b66acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 071/155] fix: ud.GoeswithFromText crashed on multi-word tokens
 written with a space in the text

---
 udapi/block/ud/goeswithfromtext.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/udapi/block/ud/goeswithfromtext.py b/udapi/block/ud/goeswithfromtext.py
index fe419fa..f829baa 100644
--- a/udapi/block/ud/goeswithfromtext.py
+++ b/udapi/block/ud/goeswithfromtext.py
@@ -50,6 +50,8 @@ class GoeswithFromText(Block):
     def process_tree(self, root):
         text = root.text
         computed = root.compute_text()
+        if text is None:
+            raise ValueError('Tree %s has no text, cannot use ud.GoeswithFromText' % root)
         if text == computed:
             return
 
@@ -80,6 +82,11 @@ class GoeswithFromText(Block):
                     assert len_raw_form <= len(text)
                 raw_form = text[:len_raw_form]
                 text = text[len_raw_form:]
+                # Words of a multi-word token cannot be aligned with the parts of its form.
+                if node.is_mwt():
+                    logging.warning('Unable to split the multi-word token %s to "%s"', node.form, raw_form)
+                    text = text.lstrip()
+                    continue
                 tokens = raw_form.split(' ')
                 node.form = tokens[0]
                 if not self.keep_lemma:
-- 
2.43.0


From d8ea54a08a14744c9bf7e7017ebc2d6933f9de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 072/155] fix: ud.SplitUnderscoreTokens crashed without lemmas,
 created empty forms, made gaps in multi-word tokens

---
 udapi/block/ud/splitunderscoretokens.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index 44575e0..1ea5799 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -44,9 +44,12 @@ class SplitUnderscoreTokens(Block):
     def process_node(self, node):
         if node.form != '_' and '_' in node.form:
             forms = node.form.split('_')
+            if '' in forms:
+                logging.warning("Splitting %s would result in an empty form, skipping.", node.form)
+                return
             if self.lemma == 'form':
                 node.lemma = node.form
-            lemmas = node.lemma.split('_')
+            lemmas = [None] * len(forms) if node.lemma is None else node.lemma.split('_')
             if len(forms) != len(lemmas):
                 logging.warning("Different number of underscores in %s and %s, skipping.",
                                 node.form, node.lemma)
@@ -58,6 +61,10 @@ class SplitUnderscoreTokens(Block):
                 new_node = node.create_child(form=form, lemma=lemma, upos=node.upos,
                                              xpos=node.xpos, deprel=deprel)
                 new_node.shift_after_node(last_node)
+                mwt = last_node.multiword_token
+                if mwt is not None:
+                    mwt.words.insert(mwt.words.index(last_node) + 1, new_node)
+                    new_node._mwt = mwt  # pylint: disable=protected-access
                 last_node = new_node
             node.form = forms[0]
             node.lemma = lemmas[0]
-- 
2.43.0


From b7882771eba41d17a6965a5f70c8fadfe4ea18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 073/155] fix: write.TextModeTrees print_comments=1 printed
 internal placeholders such as $SENT_ID

---
 udapi/block/write/textmodetrees.py     | 19 +++++++++++++++++--
 udapi/block/write/textmodetreeshtml.py |  5 +++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 885f797..16cf5fd 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -331,8 +331,23 @@ class TextModeTrees(BaseWriter):
             print('# sent_id = ' + root.address())
         if self.print_text:
             print("# text = " + (root.get_sentence() if root.is_root() else root.compute_text()))
-        if self.print_comments and root.comment:
-            print('#' + self.colorize_comment(root.comment.rstrip().replace('\n', '\n#')))
+        if self.print_comments:
+            for comment in self.comments(root):
+                print('#' + self.colorize_comment(comment))
+
+    @staticmethod
+    def comments(root):
+        """List of all comments other than sent_id and text (with $NEWDOC and $NEWPAR placeholders filled)."""
+        comments = []
+        for line in (root.comment or '').rstrip().split('\n'):
+            if line in ('$NEWDOC', '$NEWPAR'):
+                name = line[1:].lower()
+                value = getattr(root, name)
+                if value:
+                    comments.append(f' {name}' + ('' if value is True else f' id = {value}'))
+            elif line not in ('', '$SENT_ID', '$TEXT', '$GLOBAL.ENTITY'):
+                comments.append(line)
+        return comments
 
     def _ends(self, idx, chars):
         return bool(self.lines[idx] and self.lines[idx][-1] in chars)
diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 0ad39da..851b479 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -85,8 +85,9 @@ class TextModeTreesHtml(TextModeTrees):
         if self.print_text:
             text = "# text = " + (root.get_sentence() if root.is_root() else root.compute_text())
             print(escape(text))
-        if self.print_comments and root.comment:
-            print('#' + self.colorize_comment(escape(root.comment)).rstrip().replace('\n', '\n#'))
+        if self.print_comments:
+            for comment in self.comments(root):
+                print('#' + self.colorize_comment(escape(comment)))
 
     def process_bundle(self, bundle):
         if self.zones_in_rows:
-- 
2.43.0


From 6c67d2a666b2292290d4b4308f29531aca8115d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 074/155] fix: write.TextModeTrees never highlighted marked
 comments (Mark = x), ignored color=0

---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 16cf5fd..fee3143 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -397,9 +397,9 @@ class TextModeTrees(BaseWriter):
 
     def colorize_comment(self, comment):
         """Return a string with color markup for a given comment."""
-        if self.mark_re is None:
+        if self.mark_re is None or not self.color:
             return comment
-        return self.mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
+        return self.comment_mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
 
     @staticmethod
     def colorize_attr(attr, value, marked):
-- 
2.43.0


From cabed53626b15fc7ea95bcc70dcd91d1ac98fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 075/155] fix: write.TextModeTreesHtml ignored the zones
 parameter (or crashed)

---
 udapi/block/write/textmodetreeshtml.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 851b479..992f95c 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -92,18 +92,18 @@ class TextModeTreesHtml(TextModeTrees):
     def process_bundle(self, bundle):
         if self.zones_in_rows:
             # Don't print <table><tr></tr></table> if no tree will be printed in this bundle.
+            trees = [tree for tree in list(bundle) if self._should_process_tree(tree)]
             marked_trees = []
-            for tree in bundle:
-                if self._should_process_tree(tree):
-                    if self.print_empty:
-                        allnodes = [tree] + tree.descendants_and_empty
-                    else:
-                        allnodes = tree.descendants(add_self=1)
+            for tree in trees:
+                if self.print_empty:
+                    allnodes = [tree] + tree.descendants_and_empty
+                else:
+                    allnodes = tree.descendants(add_self=1)
                 if self.should_print_tree(tree, allnodes):
                     marked_trees.append(tree)
             if marked_trees:
                 if self.whole_bundle:
-                    marked_trees = bundle
+                    marked_trees = trees
                 print("<table><tr>")
                 for tree in marked_trees:
                     print("<td>")
-- 
2.43.0


From 7bb6840eed6dd06f6ff70bb6aa27421d0de07761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 076/155] fix: write.TextModeTreesHtml did not escape
 attributes with color=0, the title and metadata

---
 udapi/block/write/textmodetrees.py     | 7 +++++++
 udapi/block/write/textmodetreeshtml.py | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index fee3143..bc4538e 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -385,6 +385,8 @@ class TextModeTrees(BaseWriter):
             if self.color:
                 for i, attr in enumerate(self.attrs):
                     values[i] = self.colorize_attr(attr, values[i], marked)
+            else:
+                values = [self.escape(value) for value in values]
             if not self.color and marked:
                 self.lines[idx] += ' **' + ' '.join(values) + '**'
                 self.lengths[idx] += 4
@@ -395,6 +397,11 @@ class TextModeTrees(BaseWriter):
         """Should a given node be highlighted?"""
         return self.mark_re.search(str(node.misc)) if self.mark_re is not None else False
 
+    @staticmethod
+    def escape(value):
+        """Return a value escaped for the output format (needed in subclasses)."""
+        return value
+
     def colorize_comment(self, comment):
         """Return a string with color markup for a given comment."""
         if self.mark_re is None or not self.color:
diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 992f95c..d26b3f0 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -50,12 +50,12 @@ class TextModeTreesHtml(TextModeTrees):
         # pylint: disable=bad-super-call
         super(TextModeTrees, self).before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(str(self.title)) + '</title>')
         print('<style>' + STYLE)
         print('</style>\n</head>\n<body>\n<pre>')
         if self.print_doc_meta:
             for key, value in sorted(document.meta.items()):
-                print('%s = %s' % (key, value))
+                print(escape('%s = %s' % (key, value)))
 
     def after_process_document(self, document):
         print("</pre>\n</body>\n</html>")
@@ -68,6 +68,10 @@ class TextModeTreesHtml(TextModeTrees):
             super().add_node(idx, node)
             self.lines[idx] += '</mark>' if marked else ''
 
+    @staticmethod
+    def escape(value):
+        return escape(value)
+
     def colorize_comment(self, comment):
         """Return a string with color markup for a given comment."""
         if self.mark_re is None:
-- 
2.43.0


From 77b24ac15332c7a997cdd45655b5cf3f7659fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:44 +0000
Subject: [PATCH 077/155] =?UTF-8?q?fix:=20write.TextModeTrees=20hints=3D0?=
 =?UTF-8?q?=20drew=20broken=20edges=20(=E2=94=9C=20followed=20by=20a=20spa?=
 =?UTF-8?q?ce)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index bc4538e..8071fcc 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -276,7 +276,7 @@ class TextModeTrees(BaseWriter):
             max_length = max([self.lengths[i] for i in range(min_idx, max_idx + 1)])
             for idx in range(min_idx, max_idx + 1):
                 idx_node = allnodes[idx]
-                filler = '─' if self._ends(idx, '─╭╰╪┡┢') else ' '
+                filler = '─' if self._ends(idx, '─╭╰╪├┡┢') else ' '
                 self._add(idx, filler * (max_length - self.lengths[idx]))
 
                 topmost = idx == min_idx
@@ -287,7 +287,7 @@ class TextModeTrees(BaseWriter):
                         self.add_node(idx, node)
                 else:
                     if idx_node.parent is not node:
-                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢')])
+                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪├┡┢')])
                     else:
                         precedes_parent = idx < self._index_of[node.ord]
                         self._add(idx, self._space[precedes_parent][topmost or botmost])
-- 
2.43.0


From 172841278c286d1bbf64beb23080b381e83cd085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 078/155] fix: write.TextModeTrees took the last characters of
 node attributes for edges

---
 udapi/block/write/textmodetrees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 8071fcc..a1ae9af 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -218,6 +218,7 @@ class TextModeTrees(BaseWriter):
         self._gaps = collections.Counter()
         self.lines = []
         self.lengths = []
+        self._with_attrs = set()
 
     # We want to be able to call process_tree not only on root node,
     # so this block can be called from node.print_draw(**kwargs)
@@ -262,6 +263,7 @@ class TextModeTrees(BaseWriter):
         self._index_of = {allnodes[i].ord: i for i in range(len(allnodes))}
         self.lines = [''] * len(allnodes)
         self.lengths = [0] * len(allnodes)
+        self._with_attrs = set()
 
         # Precompute the number of non-projective gaps for each subtree
         if self.minimize_cross:
@@ -350,7 +352,8 @@ class TextModeTrees(BaseWriter):
         return comments
 
     def _ends(self, idx, chars):
-        return bool(self.lines[idx] and self.lines[idx][-1] in chars)
+        # The attributes of a node (already printed in layout=classic) may end with any characters.
+        return bool(idx not in self._with_attrs and self.lines[idx] and self.lines[idx][-1] in chars)
 
     def before_process_document(self, document):
         """Initialize ANSI colors if color is True or 'auto'.
@@ -378,6 +381,7 @@ class TextModeTrees(BaseWriter):
 
     def add_node(self, idx, node):
         """Render a node with its attributes."""
+        self._with_attrs.add(idx)
         if not node.is_root():
             values = node.get_attrs(self.attrs, undefs=self.print_undef_as)
             self.lengths[idx] += 1 + len(' '.join(values))
-- 
2.43.0


From cfc5afc95da69a6d1b6bcc28a0885975377717b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 079/155] fix: Node.get_attrs returned Python representations
 of lists of dicts as deps (e.g. in draw attributes=deps)

---
 udapi/core/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 4b26271..ff9fd88 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -826,6 +826,9 @@ class Node(object):
             for node in (n for n in nodes if n is not None):
                 if name in {'feats_split', 'misc_split'}:
                     values.extend(node._get_attr(name))
+                elif name == 'deps' and stringify:
+                    # str(node.deps) would be a list of dicts with (the representation of) nodes
+                    values.append(node.raw_deps if node.raw_deps != '_' else None)
                 else:
                     values.append(node._get_attr(name))
 
-- 
2.43.0


From ee9014e04cc6fd27adb38420c12c4aed78b1f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 080/155] fix: node.draw(print_comments=1) crashed for nodes
 other than roots

---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index a1ae9af..6f49b54 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -341,10 +341,10 @@ class TextModeTrees(BaseWriter):
     def comments(root):
         """List of all comments other than sent_id and text (with $NEWDOC and $NEWPAR placeholders filled)."""
         comments = []
-        for line in (root.comment or '').rstrip().split('\n'):
+        for line in (root.root.comment or '').rstrip().split('\n'):
             if line in ('$NEWDOC', '$NEWPAR'):
                 name = line[1:].lower()
-                value = getattr(root, name)
+                value = getattr(root.root, name)
                 if value:
                     comments.append(f' {name}' + ('' if value is True else f' id = {value}'))
             elif line not in ('', '$SENT_ID', '$TEXT', '$GLOBAL.ENTITY'):
-- 
2.43.0


From 6837c380543b645f7476502936d8b6a5c7585271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 081/155] fix: Root.add_comment added a spurious empty comment
 line to a tree without comments

---
 udapi/core/root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 3b0e018..a65e1f0 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -227,8 +227,8 @@ class Root(Node):
 
     def add_comment(self, string):
         """Add a given `string` to `root.comment` separated by a newline and space."""
-        if self.comment is None:
-            self.comment = string
+        if not self.comment:
+            self.comment = ' ' + string
         else:
             self.comment = self.comment.rstrip() + "\n " + string
 
-- 
2.43.0


From 57236b71039f222d3fd2a8e61f95e0a03667245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 082/155] fix: ud.SetTranslation wrote spurious empty comment
 lines

---
 udapi/block/ud/settranslation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/settranslation.py b/udapi/block/ud/settranslation.py
index 487cca0..670c781 100644
--- a/udapi/block/ud/settranslation.py
+++ b/udapi/block/ud/settranslation.py
@@ -31,7 +31,7 @@ class SetTranslation(Block):
         super().__init__(**kwargs)
         self.file = file
         fh = open(self.file, 'r', encoding='utf-8')
-        self.trlines = fh.readlines()
+        self.trlines = fh.read().splitlines()
         self.nlines = len(self.trlines)
         self.iline = 0
         self.overwrite = overwrite
@@ -42,7 +42,7 @@ class SetTranslation(Block):
             self.iline += 1
             comments = []
             if tree.comment:
-                comments = tree.comment.split('\n')
+                comments = tree.comment.rstrip('\n').split('\n')
             i_tr = -1
             for i in range(len(comments)):
                 # The initial '#' character has been stripped.
-- 
2.43.0


From b6cd9ca66b4c8ca897ec639fb74735eecf25f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 083/155] fix: ud.FixChain left chains whose dependents precede
 their heads

---
 udapi/block/ud/fixchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixchain.py b/udapi/block/ud/fixchain.py
index b3a586f..ed5a0de 100644
--- a/udapi/block/ud/fixchain.py
+++ b/udapi/block/ud/fixchain.py
@@ -14,5 +14,5 @@ class FixChain(Block):
 
     def process_node(self, node):
         for deprel in self.deprels:
-            if node.udeprel == deprel and node.parent.udeprel == deprel:
+            while node.udeprel == deprel and node.parent.udeprel == deprel:
                 node.parent = node.parent.parent
-- 
2.43.0


From 7b9e1baace148a43423f3712e6d8c58ec54f1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 084/155] fix: ud.FixRightheaded left right-headed chains
 unfixed

---
 udapi/block/ud/fixrightheaded.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/udapi/block/ud/fixrightheaded.py b/udapi/block/ud/fixrightheaded.py
index 045278d..b1d8f20 100644
--- a/udapi/block/ud/fixrightheaded.py
+++ b/udapi/block/ud/fixrightheaded.py
@@ -20,14 +20,14 @@ class FixRightheaded(Block):
         self.deprels = deprels.split(',')
 
     def process_node(self, node):
-        for deprel in self.deprels:
-            if node.udeprel == deprel and node.precedes(node.parent):
-                orig_parent = node.parent
-                node.parent = orig_parent.parent
-                if deprel != 'conj':
-                    for child in orig_parent.children:
-                        child.parent = node
-                orig_parent.parent = node
-                head_deprel = orig_parent.deprel
-                orig_parent.deprel = node.deprel
-                node.deprel = head_deprel
+        # The node takes over the deprel of its original parent, so it may need to be fixed again.
+        while node.udeprel in self.deprels and node.precedes(node.parent):
+            orig_parent = node.parent
+            node.parent = orig_parent.parent
+            if node.udeprel != 'conj':
+                for child in orig_parent.children:
+                    child.parent = node
+            orig_parent.parent = node
+            head_deprel = orig_parent.deprel
+            orig_parent.deprel = node.deprel
+            node.deprel = head_deprel
-- 
2.43.0


From 633c4177c1ee1410630812abad15390e6d560d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 085/155] fix: ud.FixRoot crashed on a tree without words

---
 udapi/block/ud/fixroot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixroot.py b/udapi/block/ud/fixroot.py
index be972d8..8477156 100644
--- a/udapi/block/ud/fixroot.py
+++ b/udapi/block/ud/fixroot.py
@@ -26,6 +26,8 @@ class FixRoot(Block):
 
     def process_tree(self, root):
         rchildren = root.children
+        if not rchildren:
+            return
         if len(rchildren) > 1:
             for i in range(len(rchildren)-1):
                 rchildren[i+1].parent = rchildren[0]
-- 
2.43.0


From 1233b7b7fc3623abe9d77d46e85d646855e512bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 086/155] fix: ud.FixPunct crashed on a tree without words

---
 udapi/block/ud/fixpunct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 854a24a..f39497a 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -109,7 +109,7 @@ class FixPunct(Block):
 
         # Check if the subroot is still marked with deprel=root.
         # This may not hold if the original subroot was a paired punctuation, which was rehanged.
-        if root.children[0].udeprel != 'root':
+        if root.children and root.children[0].udeprel != 'root':
             root.children[0].udeprel = 'root'
             if self.copy_to_enhanced:
                 root.children[0].deps = [{'parent': root, 'deprel': 'root'}]
-- 
2.43.0


From b01648f302b0fbfea32197b0a72005137a7d3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 087/155] fix: ud.FixMultiSubjects crashed on words without
 deprel

---
 udapi/block/ud/fixmultisubjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixmultisubjects.py b/udapi/block/ud/fixmultisubjects.py
index f8aeca0..8cfb338 100644
--- a/udapi/block/ud/fixmultisubjects.py
+++ b/udapi/block/ud/fixmultisubjects.py
@@ -12,7 +12,7 @@ class FixMultiSubjects(Block):
     """
 
     def process_node(self, node):
-        subjects = [x for x in node.children if re.match(r"^[nc]subj(:|$)", x.deprel) and not re.search(r":outer$", x.deprel)]
+        subjects = [x for x in node.children if re.match(r"^[nc]subj(:|$)", x.deprel or '') and not re.search(r":outer$", x.deprel)]
         # For the moment, we take the dummiest approach possible: The first subject survives and all others are forced to a different deprel.
         if len(subjects) > 1:
             subjects = subjects[1:]
-- 
2.43.0


From 63de3bf783e2ab9476142b66433e9b7861bd8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 088/155] fix: ud.FixAdvmodByUpos changed advmod of adverbs to
 dep

---
 udapi/block/ud/fixadvmodbyupos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixadvmodbyupos.py b/udapi/block/ud/fixadvmodbyupos.py
index d020b55..d0625db 100644
--- a/udapi/block/ud/fixadvmodbyupos.py
+++ b/udapi/block/ud/fixadvmodbyupos.py
@@ -12,7 +12,9 @@ class FixAdvmodByUpos(Block):
 
     def process_node(self, node):
         if node.udeprel == 'advmod':
-            if node.upos in ['NOUN', 'PROPN', 'PRON', 'DET', 'NUM']:
+            if node.upos == 'ADV':
+                pass
+            elif node.upos in ['NOUN', 'PROPN', 'PRON', 'DET', 'NUM']:
                 node.deprel = 'obl'
             elif node.upos == 'VERB':
                 node.deprel = 'advcl'
-- 
2.43.0


From c7fe1d2f4d03732bd8dc801833177000390266b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 089/155] fix: ud.FixCompoundName converted only names with
 numbers (which it should skip)

---
 udapi/block/ud/fixcompoundname.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixcompoundname.py b/udapi/block/ud/fixcompoundname.py
index 90596e3..4ac6a6c 100644
--- a/udapi/block/ud/fixcompoundname.py
+++ b/udapi/block/ud/fixcompoundname.py
@@ -29,7 +29,7 @@ class FixCompoundName(Block):
             # The Hindi treebank tags dates (['30', 'navaṁbara'], ['disaṁbara', '1993']) as PROPN compounds.
             # This is wrong but it is also different from personal names we are targeting here.
             # Hence, we will skip "names" that contain numbers.
-            if any(re.search(r"\d", x.form) for x in namewords):
+            if not any(re.search(r"\d", x.form) for x in namewords):
                 #logging.info(str([x.misc['Translit'] for x in namewords]))
                 ###!!! We currently cannot transform enhanced dependencies.
                 ###!!! If we proceed, the basic tree would diverge from the enhanced dependencies.
-- 
2.43.0


From bee96149ca15e9241c0ad45f02beb5d2b8297105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 090/155] fix: ud.FixPseudoCop crashed on words without deprel

---
 udapi/block/ud/fixpseudocop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixpseudocop.py b/udapi/block/ud/fixpseudocop.py
index f4d9a1e..ee42322 100644
--- a/udapi/block/ud/fixpseudocop.py
+++ b/udapi/block/ud/fixpseudocop.py
@@ -38,7 +38,7 @@ class FixPseudoCop(Block):
                     # obl is borderline. It could modify an adjective rather than a clause.
                     # obj and iobj should not occur in copular clauses but it sometimes
                     # occurs with pseudocopulas: "I declare him handsome."
-                    if re.match("(nsubj|csubj|advmod|advcl|obj|iobj|obl|aux|mark|punct|cc|expl|dislocated|vocative|discourse|parataxis)", c.udeprel):
+                    if re.match("(nsubj|csubj|advmod|advcl|obj|iobj|obl|aux|mark|punct|cc|expl|dislocated|vocative|discourse|parataxis)", c.udeprel or ''):
                         c.parent = node
             # Another possible error is that the word is tagged AUX without being attached as "cop" or "aux".
             elif self.noncopaux and node.upos == 'AUX':
-- 
2.43.0


From 074d804166c53eeef955ad4d7467610aa4cf0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 091/155] fix: ud.FixPunct paired quotes with tokens which are
 not PUNCT (and crashed on cycles)

---
 udapi/block/ud/fixpunct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index f39497a..b4f14fe 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -221,6 +221,8 @@ class FixPunct(Block):
             return
         nested_level = 0
         for node in root.descendants[opening_node.ord:]:
+            if not self._is_punct(node):
+                continue
             if node.form == closing_punct:
                 if nested_level > 0:
                     nested_level -= 1
-- 
2.43.0


From 55df76a10165b0b79a67ae031e794ba91fef4380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:26 +0000
Subject: [PATCH 092/155] fix: ud.FixPunct crashed on a cycle when a mark
 enclosed only other marks

---
 udapi/block/ud/fixpunct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index b4f14fe..c653c6b 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -209,6 +209,8 @@ class FixPunct(Block):
         node.deprel = 'punct'
 
     def _will_be_projective(self, node, cand):
+        if cand.is_descendant_of(node):
+            return False
         node.parent = cand
         return not node.is_nonprojective() and not self._causes_gap(node)
 
-- 
2.43.0


From 345e7a1ac010728d5667abe7dba703f19c8cf0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:27 +0000
Subject: [PATCH 093/155] fix: ud.FixPunct could attach a paired mark
 non-projectively in a projective tree

---
 udapi/block/ud/fixpunct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index c653c6b..9b11bd7 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -293,14 +293,20 @@ class FixPunct(Block):
         # -- breaking the paired-marks-have-same-parent rule
         # in order to prevent the punct-nonproj-gap bug (recently checked by validator.py).
         if self._causes_gap(opening_node):
+            orig_parent = opening_node.parent
             opening_node.parent = opening_node.next_node
             while (opening_node.parent.ord < closing_node.ord - 1
                 and (opening_node.parent.upos == 'PUNCT' or opening_node.is_nonprojective()
                 or self._causes_gap(opening_node))):
                     opening_node.parent = opening_node.parent.next_node
+            if opening_node.is_nonprojective() or self._causes_gap(opening_node):
+                opening_node.parent = orig_parent
         if self._causes_gap(closing_node):
+            orig_parent = closing_node.parent
             closing_node.parent = closing_node.prev_node
             while (closing_node.parent.ord > opening_node.ord + 1
                 and (closing_node.parent.upos == 'PUNCT' or closing_node.is_nonprojective()
                 or self._causes_gap(closing_node))):
                     closing_node.parent = closing_node.parent.prev_node
+            if closing_node.is_nonprojective() or self._causes_gap(closing_node):
+                closing_node.parent = orig_parent
-- 
2.43.0


From a8c0f26b7d12a4bd891b37d6602280813c7845ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 094/155] fix: udapy exited with 0 after a block called
 sys.exit with an error code

---
 bin/udapy | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bin/udapy b/bin/udapy
index 30cb259..0c7d7e6 100755
--- a/bin/udapy
+++ b/bin/udapy
@@ -74,6 +74,9 @@ logging.basicConfig(format='%(asctime)-15s [%(levelname)7s] %(funcName)s - %(mes
 # Global flag to track if an unhandled exception occurred
 _unhandled_exception_occurred = False
 
+# Exit code requested with sys.exit() in some of the blocks
+_exit_code = 0
+
 def _custom_excepthook(exc_type, exc_value, traceback):
     global _unhandled_exception_occurred
     _unhandled_exception_occurred = True
@@ -106,7 +109,7 @@ if __name__ == "__main__":
         # because the Python has already exited the exception-handling block
         # (the exception/error has been already reported and sys.exc_info()[0] is None).
         # We thus keep record whether _unhandled_exception_occurred.
-        atexit.register(lambda: os._exit(1 if _unhandled_exception_occurred else 0))
+        atexit.register(lambda: os._exit(1 if _unhandled_exception_occurred else _exit_code))
         atexit.register(sys.stderr.flush)
     if args.save:
         args.scenario = args.scenario + ['write.Conllu']
@@ -134,3 +137,8 @@ if __name__ == "__main__":
         runner.execute()
     except BrokenPipeError:
         pass
+    except SystemExit as exit_exception:
+        # sys.excepthook is not called for SystemExit, so remember the requested exit code.
+        if exit_exception.code is not None:
+            _exit_code = exit_exception.code & 0xFF if isinstance(exit_exception.code, int) else 1
+        raise
-- 
2.43.0


From e81294e875a9ea113938e85e9db29718d56a01f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 095/155] fix: read.Conll and read.Conllup took ID, MWT and
 empty-node attributes from fixed columns

---
 udapi/block/read/conll.py   | 22 ++++++++++++----------
 udapi/block/read/conllup.py | 15 +++++++++------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 7b8d5e9..62f5c7a 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -65,14 +65,16 @@ class Conll(udapi.block.read.conllu.Conllu):
                 raise RuntimeError('Wrong number of columns in %r' % line)
             fields.extend(['_'] * (len(self.node_attributes) - len(fields)))
         # multi-word tokens will be processed later
-        if '-' in fields[0]:
-            mwts.append(fields)
+        attr2value = dict(zip(self.node_attributes, fields))
+        ord_value = attr2value.get('ord', '')
+        if '-' in ord_value:
+            mwts.append(attr2value)
             return
-        if '.' in fields[0]:
-            empty = root.create_empty_child(form=fields[1], lemma=fields[2], upos=fields[3],
-                                            xpos=fields[4], feats=fields[5], misc=fields[9])
-            empty.ord = fields[0]
-            empty.raw_deps = fields[8]  # TODO
+        if '.' in ord_value:
+            attrs = {a: attr2value.get(a, '_') for a in ('form', 'lemma', 'upos', 'xpos', 'feats', 'misc')}
+            empty = root.create_empty_child(**attrs)
+            empty.ord = ord_value
+            empty.raw_deps = attr2value.get('deps', '_')  # TODO
             return
 
         # This implementation is slower than in read.Conllu,
@@ -157,9 +159,9 @@ class Conll(udapi.block.read.conllu.Conllu):
             parent._children.append(node)
 
         # Create multi-word tokens.
-        for fields in mwts:
-            range_start, range_end = fields[0].split('-')
+        for attr2value in mwts:
+            range_start, range_end = attr2value['ord'].split('-')
             words = nodes[int(range_start):int(range_end) + 1]
-            root.create_multiword_token(words, form=fields[1], misc=fields[-1])
+            root.create_multiword_token(words, form=attr2value.get('form'), misc=attr2value.get('misc'))
 
         return root
diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index 16d83d0..9ea7fb2 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -37,18 +37,19 @@ class Conllup(udapi.block.read.conll.Conll):
         """
         super().__init__(**kwargs)
         self.save_global_columns = save_global_columns
-        if attributes == 'autodetect':
+        self.autodetect = attributes == 'autodetect'
+        if self.autodetect:
             self.node_attributes = None
         else:
             self.node_attributes = attributes.split(',')
 
     def parse_comment_line(self, line, root):
-        if self.node_attributes is None:
+        if self.autodetect:
             global_columns_match = RE_GLOBAL_COLUMNS.match(line)
             if global_columns_match is None:
                 return super().parse_comment_line(line, root)
             global_columns = global_columns_match.group(1)
-            self.node_attributes = [COLUMN_MAP.get(v, v.lower()) for v in global_columns.split(" ")]
+            self.node_attributes = [COLUMN_MAP.get(v, v.lower()) for v in global_columns.split()]
             if self.save_global_columns:
                 root.comment += line[1:] + '\n'
             return
@@ -62,10 +63,12 @@ class Conllup(udapi.block.read.conll.Conll):
             fields.extend(['_'] * (len(self.node_attributes) - len(fields)))
 
         # multi-word tokens will be processed later
-        if '-' in fields[0]:
-            mwts.append(fields)
+        attr2value = dict(zip(self.node_attributes, fields))
+        ord_value = attr2value.get('ord', '')
+        if '-' in ord_value:
+            mwts.append(attr2value)
             return
-        if '.' in fields[0]:
+        if '.' in ord_value:
             raise NotImplementedError("Empty nodes in CoNLL-UPlus not implement yet in read.Conllup")
 
         # This implementation is slower than in read.Conllu,
-- 
2.43.0


From 46df4ab0f400c3568217d99dd7ae6df9fb3b1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 096/155] fix: read.Vislcg lost features, escaped characters
 and a sentence-final multiword token

---
 udapi/block/read/vislcg.py | 54 +++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 4c5a87a..c98a5d4 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -1,6 +1,12 @@
 """Vislcg is a reader block the VISL-cg format."""
+import re
+
 from udapi.core.basereader import BaseReader
 from udapi.core.root import Root
+from udapi.block.write.vislcg import ESCAPE_TABLE
+
+UNESCAPE_TABLE = {escaped: char for char, escaped in ESCAPE_TABLE.items()}
+RE_ESCAPED = re.compile('|'.join(re.escape(escaped) for escaped in UNESCAPE_TABLE))
 
 
 class Vislcg(BaseReader):
@@ -30,24 +36,11 @@ class Vislcg(BaseReader):
                 parents.append(parent_ord)
                 continue
 
-            if words:
-                words[0].form = form
-                if len(words) > 1:
-                    split_forms = form.split()
-                    if len(words) == len(split_forms):
-                        for word, split_form in zip(words, split_forms):
-                            word.form = split_form
-                    else:
-                        for word in words[1:]:
-                            word.form = '_'
-                    root.create_multiword_token(words, form=form)
-                words = []
-            form = line[2:-2]
+            self._finish_token(words, form, root)
+            words = []
+            form = self._unescape(line[2:-2])
 
-        if words:
-            words[0].form = form
-            for word in words[1:]:
-                word.form = '_'
+        self._finish_token(words, form, root)
 
         nodes = root.descendants(add_self=True)
         if len(nodes) == 1:
@@ -61,16 +54,35 @@ class Vislcg(BaseReader):
         return root
 
     @staticmethod
-    def _node(line, root):
+    def _finish_token(words, form, root):
+        if not words:
+            return
+        words[0].form = form
+        if len(words) > 1:
+            split_forms = form.split()
+            if len(words) == len(split_forms):
+                for word, split_form in zip(words, split_forms):
+                    word.form = split_form
+            else:
+                for word in words[1:]:
+                    word.form = '_'
+            root.create_multiword_token(words, form=form)
+
+    @staticmethod
+    def _unescape(string):
+        return RE_ESCAPED.sub(lambda match: UNESCAPE_TABLE[match.group()], string)
+
+    @classmethod
+    def _node(cls, line, root):
         # line contains "lemma" xpos feat1 feat2 .. featN @deprel #ord->parent.ord
         # Lemma can contain spaces, but quotes within lemma are not escaped,
         # so we cannot use fields = shlex.split(line)
         # Let's hope that xpos, feats and deprel do not contain any quotes.
         end_quote_pos = line.rfind('"')
-        lemma = line[1:end_quote_pos]
+        lemma = cls._unescape(line[1:end_quote_pos])
         fields = line[end_quote_pos + 1:].split()
-        xpos = fields[0]
-        feats_list = fields[3:-2]
+        xpos = cls._unescape(fields[0])
+        feats_list = [cls._unescape(feat) for feat in fields[1:-2]]
         feats = '|'.join(feats_list) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
-- 
2.43.0


From aa3e5caea3237d6c859edd87ef779f9a44ffa0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:46 +0000
Subject: [PATCH 097/155] fix: write.Treex and write.SentencesHtml did not
 escape special characters, write.Treex IDs were not unique

---
 udapi/block/write/sentenceshtml.py |  6 ++++--
 udapi/block/write/treex.py         | 25 ++++++++++++++-----------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/udapi/block/write/sentenceshtml.py b/udapi/block/write/sentenceshtml.py
index e0f8724..bc74774 100644
--- a/udapi/block/write/sentenceshtml.py
+++ b/udapi/block/write/sentenceshtml.py
@@ -1,4 +1,6 @@
 """SentencesHtml class is a writer for sentences in HTML list (could be Google-translated, remembering sentence correspondence)."""
+from html import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -26,7 +28,7 @@ class SentencesHtml(BaseWriter):
     def before_process_document(self, document):
         super().before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(str(self.title)) + '</title>')
         print('</head>\n<body>\n<ul>\n')
 
     def after_process_document(self, document):
@@ -34,4 +36,4 @@ class SentencesHtml(BaseWriter):
         super().after_process_document(document)
 
     def process_tree(self, tree):
-        print('  <li id="%s">%s</li>' % (tree.sent_id, tree.get_sentence(self.if_missing)))
+        print('  <li id="%s">%s</li>' % (escape(tree.sent_id), escape(tree.get_sentence(self.if_missing))))
diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index 7faea41..dc9eccf 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -1,4 +1,6 @@
 """write.Treex is a writer block for Treex XML (e.g. for TrEd editing)."""
+from xml.sax.saxutils import escape, quoteattr
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -20,39 +22,40 @@ class Treex(BaseWriter):
         super().after_process_document(doc)
 
     def process_bundle(self, bundle):
-        print('    <LM id="%s">\n      <zones>' % bundle.bundle_id)
+        print('    <LM id=%s>\n      <zones>' % quoteattr(bundle.bundle_id))
         super().process_bundle(bundle)
         print('      </zones>\n    </LM>')
 
     def process_tree(self, tree):
         zone_parts = tree.zone.split('_')
         language, selector = zone_parts if len(zone_parts) == 2 else ('und', tree.zone)
-        tree_id = tree.bundle.bundle_id + '-' + language
+        # Trees in one bundle may share the language and IDs must be unique.
+        tree_id = tree.bundle.bundle_id + '-' + (tree.zone or language)
         ind = ' ' * 8
-        print(ind + "<zone language='%s' selector='%s'>" % (language, selector))
+        print(ind + "<zone language=%s selector=%s>" % (quoteattr(language), quoteattr(selector)))
         if tree.text:
-            print(ind + "  <sentence>%s</sentence>" % tree.text)
-        print(ind + "  <trees>\n" + ind + "    <a_tree id='%s'>" % tree_id)
+            print(ind + "  <sentence>%s</sentence>" % escape(tree.text))
+        print(ind + "  <trees>\n" + ind + "    <a_tree id=%s>" % quoteattr(tree_id))
         self.print_subtree(tree, tree_id, ' ' * 12)
         print(ind + "    </a_tree>\n" + ind + "  </trees>\n" + ind + "</zone>")
 
     def print_subtree(self, node, tree_id, indent):
         """Recrsively print trees in Treex format."""
         if not node.is_root():
-            print(indent + "<LM id='%s-n%s'>" % (tree_id, node.ord))
+            print(indent + "<LM id=%s>" % quoteattr('%s-n%s' % (tree_id, node.ord)))
         ind = indent + '  '
         print(ind + "<ord>%s</ord>" % node.ord)
         if not node.is_root():
             if node.form:
-                print(ind + "<form>%s</form>" % node.form)
+                print(ind + "<form>%s</form>" % escape(node.form))
             if node.lemma:
-                print(ind + "<lemma>%s</lemma>" % node.lemma)
+                print(ind + "<lemma>%s</lemma>" % escape(node.lemma))
             if node.upos:
-                print(ind + "<tag>%s</tag>" % node.upos)
+                print(ind + "<tag>%s</tag>" % escape(node.upos))
             if node.deprel:
-                print(ind + "<deprel>%s</deprel>" % node.deprel)
+                print(ind + "<deprel>%s</deprel>" % escape(node.deprel))
             print(ind + "<conll><pos>%s</pos><feat>%s</feat></conll>"
-                  % (node.xpos, str(node.feats)))
+                  % (escape(node.xpos or '_'), escape(str(node.feats))))
 
         # TODO misc and deps into wild, but probably need to encode ř as \x{159} etc.
         if node.children:
-- 
2.43.0


From 67866397fefafb983353038a170c1eb188649d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 098/155] fix: write.Html produced invalid JSON for some
 characters

---
 udapi/block/write/html.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/udapi/block/write/html.py b/udapi/block/write/html.py
index ae85d43..271acfd 100644
--- a/udapi/block/write/html.py
+++ b/udapi/block/write/html.py
@@ -1,4 +1,6 @@
 """Html class is a writer for HTML+JavaScript+SVG visualization of dependency trees."""
+import json
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -105,7 +107,7 @@ class Html(BaseWriter):
             except:
                 trees = [bundle] # allow to call print_doc_json([tree1, tree2])
             for tree in trees:
-                zone = tree.zone
+                zone = _esc(tree.zone)
                 if first_zone:
                     first_zone = False
                 else:
@@ -114,7 +116,7 @@ class Html(BaseWriter):
                 print('"trees":{"a":{"language":"%s","nodes":[' % zone)
                 print('{"id":%s,"parent":null,' % _id(tree), end='')
                 print('"firstson":' + _id(tree.children[0] if tree.children else None), end=',')
-                print('"labels":["zone=%s","id=%s"]}' % (zone, tree.address()))
+                print('"labels":["zone=%s","id=%s"]}' % (zone, _esc(tree.address())))
                 desc += ',["[%s]","label"],[" ","space"]' % zone
                 for node in tree.descendants:
                     desc += self.print_node_json(node)
@@ -133,7 +135,7 @@ class Html(BaseWriter):
         names = ['ord', 'misc', 'form', 'lemma', 'upos', 'xpos', 'feats', 'deprel']
         values = node.get_attrs(names, undefs='')
         order, misc, form, lemma, upos, xpos, feats, deprel = [_esc(x) for x in values]
-        address = node.address()
+        address = _esc(node.address())
         id_node, id_parent = _id(node), _id(node.parent)
         firstson = node.children[0] if node.children else None
         rbrother = next((n for n in node.parent.children if node.precedes(n)), None)
@@ -157,10 +159,11 @@ class Html(BaseWriter):
 def _id(node):
     if node is None:
         return 'null'
-    return '"n%s"' % node.address().replace('#', '-').replace('/', '-')
+    return '"n%s"' % _esc(node.address()).replace('#', '-').replace('/', '-')
 
 
 def _esc(string):
     if string is None:
         string = ''
-    return string.replace('\\', '\\\\').replace('"', r'\"')
+    # The JSON is a part of a html script element, so it must not contain the end tag.
+    return json.dumps(string, ensure_ascii=False)[1:-1].replace('<', r'\u003c')
-- 
2.43.0


From 88034330a120ddf004e921d9645dbcc5aa1ab34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 099/155] fix: write.Tikz did not escape LaTeX special
 characters and left deptrans unclosed

---
 udapi/block/write/tikz.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index dd20b8c..940c7e9 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -1,8 +1,15 @@
 """Tikz class is a writer for LaTeX with tikz-dependency."""
 import logging
+import re
 
 from udapi.core.basewriter import BaseWriter
 
+TEX_ESCAPES = {
+    '_': r'\_', '$': r'\$', '%': r'\%', '&': r'\symbol{38}', '#': r'\#', '{': r'\{', '}': r'\}',
+    '[': '$[$', ']': '$]$',
+    '\\': r'\textbackslash{}', '~': r'\textasciitilde{}', '^': r'\textasciicircum{}',
+}
+
 
 class Tikz(BaseWriter):
     r"""A writer of files in the LaTeX with tikz-dependency format.
@@ -97,7 +104,7 @@ class Tikz(BaseWriter):
         super().after_process_document(doc)
 
     def _tex_escape(self, string):
-        return string.replace('_', r'\_').replace('$', '\$').replace('[', '$[$').replace(']', '$]$')
+        return ''.join(TEX_ESCAPES.get(char, char) for char in string)
 
     def process_tree(self, tree):
         print(r'\begin{dependency}')
@@ -128,7 +135,7 @@ class Tikz(BaseWriter):
         print(r'\end{deptext}')
         if self.as_tree:
             depths = [n._get_attr('depth') for n in nodes]
-            max_depth = max(depths)
+            max_depth = max(depths, default=0)
             for node in nodes:
                 print(r'\node (w%d) [yshift=\depskip+%s\deplevel,depnode] at (\wordref{1}{%d}) {};'
                       % (node.ord, max_depth - depths[node.ord - 1], node.ord))
@@ -138,25 +145,23 @@ class Tikz(BaseWriter):
                     print('')
                 else:
                     print(r' \draw[depedge] (w%d)--node[deplabel] {%s} (w%d);'
-                          % (node.ord, node.deprel, node.parent.ord))
+                          % (node.ord, self._tex_escape(node.deprel or ''), node.parent.ord))
         else:
             for node in nodes:
                 if node.parent.is_root():
                     print(r'\deproot{%d}{root}' % node.ord)
                 else:
-                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, node.deprel))
+                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, self._tex_escape(node.deprel or '')))
                 if self.enhanced:
                     for dep in node.deps:
                         if dep['parent'].is_root():
                             print(r'\deproot[edge below]{%d}{root}' % node.ord)
                         else:
-                            print(r'\depedge[edge below]{%d}{%d}{%s}' % (dep['parent'].ord, node.ord, dep['deprel']))
+                            print(r'\depedge[edge below]{%d}{%d}{%s}' % (dep['parent'].ord, node.ord, self._tex_escape(dep['deprel'])))
         if self.comment_attribute and tree.comment:
-            start_pos = tree.comment.find(self.comment_attribute + ' = ')
-            if start_pos != -1:
-                start_pos += len(self.comment_attribute) + 3
-                end_pos = tree.comment.find('\n', start_pos)
-                print(r'\deptrans{' + tree.comment[start_pos:end_pos])
+            match = re.search(r'^\s*%s = (.*)$' % re.escape(self.comment_attribute), tree.comment, re.MULTILINE)
+            if match:
+                print(r'\deptrans{' + self._tex_escape(match.group(1)) + '}')
 
         print(r'\end{dependency}')
         print('')  # empty line marks a new paragraph in LaTeX, but multi=dependency causes newpage
-- 
2.43.0


From 84281932ddd109da9c401e734245860579a56bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 100/155] fix: write.CorefHtml did not escape special
 characters and lost crossing mentions

---
 udapi/block/write/corefhtml.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 1d5d471..11fc949 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -16,6 +16,7 @@ Non-recommended solution is to run
 from udapi.core.basewriter import BaseWriter
 from udapi.core.coref import span_to_nodes, CorefEntity, CorefMention
 from collections import Counter
+from html import escape
 import udapi.block.write.html
 import gzip
 import sys
@@ -281,9 +282,9 @@ class CorefHtml(BaseWriter):
               '<th title="number of mentions">#m</th>'
               '<th title="a word best representing the entity">word</th></tr></thead>\n<tbody>')
         for entity in doc.coref_entities:
-            print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{entity.eid}</a></td>'
+            print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{escape(entity.eid)}</a></td>'
                   f'<td>{len(entity.mentions)}</td>'
-                  f'<td>{self._representative_word(entity)}</td></tr>')
+                  f'<td>{escape(str(self._representative_word(entity)))}</td></tr>')
         print('</tbody></table>')
         print('</div>')
 
@@ -359,6 +360,7 @@ class CorefHtml(BaseWriter):
             title += '\ncrossing'
         if m.other:
             title += f'\n{m.other}'
+        title, classes = escape(title), escape(classes)
         span_id = ''
         if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
             span_id = f'id="{_dom_esc(e.eid)}" '
@@ -367,11 +369,11 @@ class CorefHtml(BaseWriter):
         if self.rtl:
             print(f'<span {span_id}class="{classes}" title="{title}" dir="ltr">'
                   f'<span class="labels"><b class="eid">{_dom_esc(subspan.subspan_eid)}</b>'
-                  f' <i class="etype">{e.etype}</i></span><span dir="rtl">', end='')
+                  f' <i class="etype">{escape(str(e.etype))}</i></span><span dir="rtl">', end='')
         else:
             print(f'<span {span_id}class="{classes}" title="{title}">'
                   f'<span class="labels"><b class="eid">{_dom_esc(subspan.subspan_eid)}</b>'
-                  f' <i class="etype">{e.etype}</i></span>', end='')
+                  f' <i class="etype">{escape(str(e.etype))}</i></span>', end='')
 
     def process_tree(self, tree):
         mentions = set()
@@ -386,12 +388,13 @@ class CorefHtml(BaseWriter):
         subspans.sort(reverse=True)
 
         if tree.newdoc:
-            print(f'<hr><h1>{tree.newdoc if tree.newdoc is not True else ""}</h1><hr>')
+            print(f'<hr><h1>{escape(tree.newdoc) if tree.newdoc is not True else ""}</h1><hr>')
         elif tree.newpar:
             print('<hr class="par">')
         opened, prev_node_mention = [], True
         rtl = ' dir="rtl"' if self.rtl else ""
-        print(f'<p class="sentence" data-id="{tree.sent_id}" id="{_id(tree)}"{rtl}>')
+        end_subspan = '</span></span>' if self.rtl else '</span>'
+        print(f'<p class="sentence" data-id="{escape(str(tree.sent_id))}" id="{_id(tree)}"{rtl}>')
         for node in nodes_and_empty:
             if not prev_node_mention and subspans and subspans[-1].words[0] == node:
                 print('</span>', end='')
@@ -408,17 +411,14 @@ class CorefHtml(BaseWriter):
                 print('<b class="head">', end='')
             if node.is_empty():
                 print('<i class="empty">', end='')
-            print(node.form, end='')
+            print(escape(str(node.form)), end='')
             if node.is_empty():
                 print('</i>', end='')
             if is_head:
                 print('</b>', end='')
 
             while opened and opened[-1].words[-1] == node:
-                if self.rtl:
-                    print('</span></span>', end='')
-                else:
-                    print('</span>', end='')
+                print(end_subspan, end='')
                 opened.pop()
 
             # Two mentions are crossing iff their spans have non-zero intersection,
@@ -439,10 +439,10 @@ class CorefHtml(BaseWriter):
                     else:
                         new_opened.append(subspan)
                 opened = new_opened
-                print('</span>' * (len(endings) + len(brokens)), end='')
+                print(end_subspan * (len(endings) + len(brokens)), end='')
                 for broken in brokens:
                     self._start_subspan(broken, True)
-                    opened.append(subspan)
+                    opened.append(broken)
 
             if not node.no_space_after:
                 print(' ', end='')
-- 
2.43.0


From 8fd2e9cbffb4c44fbca99cf0a1d35e86627c01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:57 +0000
Subject: [PATCH 101/155] fix: write.CorefHtml repeated the DOM id of a split
 crossing mention

---
 udapi/block/write/corefhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 11fc949..b2d3369 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -362,7 +362,7 @@ class CorefHtml(BaseWriter):
             title += f'\n{m.other}'
         title, classes = escape(title), escape(classes)
         span_id = ''
-        if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
+        if not crossing and (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
             span_id = f'id="{_dom_esc(e.eid)}" '
         # The title should be always rendered left-to-right (e.g. "head=X", not "X=head"),
         # so for RTL languages, we need to use explicit dir="ltr" and insert a nested span with dir="rtl".
-- 
2.43.0


From cc600e37ae86ddd0601ba6c143ba0435f77009b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:26 +0000
Subject: [PATCH 102/155] fix: reader parameter zone combined with
 bundles_per_doc or split_docs created bundles with ID '?'

---
 udapi/core/root.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index a65e1f0..eb295b6 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -102,8 +102,6 @@ class Root(Node):
             self._sent_id = self._bundle.address() + slashzone
         elif self._sent_id:
             self._sent_id = self._sent_id.split('/', 1)[0] + slashzone
-        else:
-            self._sent_id = '?' + slashzone
 
     @property
     def parent(self):
-- 
2.43.0


From 7477c2bbd46b40f6cbe169ab399f355fbf122c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 103/155] fix: util.MarkDiff does not confuse differences
 between attributes containing an underscore

---
 udapi/block/util/markdiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/markdiff.py b/udapi/block/util/markdiff.py
index 03ef2ff..e405ae3 100644
--- a/udapi/block/util/markdiff.py
+++ b/udapi/block/util/markdiff.py
@@ -62,8 +62,8 @@ class MarkDiff(Block):
         if len(pred_nodes) != len(gold_nodes) and self.mark_attr:
             tree.add_comment(f'{self.mark_attr} = {self.mark}')
             gold_tree.add_comment(f'{self.mark_attr} = {self.mark}')
-        pred_tokens = ['_'.join(n.get_attrs(self.attrs, undefs="_")) for n in pred_nodes]
-        gold_tokens = ['_'.join(n.get_attrs(self.attrs, undefs="_")) for n in gold_nodes]
+        pred_tokens = [tuple(n.get_attrs(self.attrs, undefs="_")) for n in pred_nodes]
+        gold_tokens = [tuple(n.get_attrs(self.attrs, undefs="_")) for n in gold_nodes]
         matcher = difflib.SequenceMatcher(None, pred_tokens, gold_tokens, autojunk=False)
         diffs = list(matcher.get_opcodes())
 
-- 
2.43.0


From 16ee01f82bdd6d9c031ef2c203fa07d531644497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 104/155] fix: assigning the extra fields of a mention to
 themselves does not delete them

---
 udapi/core/coref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 6d42849..583346e 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1109,7 +1109,8 @@ class OtherDualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value
         elif isinstance(value, collections.abc.Mapping):
-            self._string = None
+            # The order is important if value is self (e.g. mention.other = mention.other) and not deserialized yet.
             self._dict = dict(value)
+            self._string = None
         else:
             raise ValueError("Unsupported value type " + str(value))
-- 
2.43.0


From 989de6b2ebbfc9e970714d7c5b8a7a79c7067247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 105/155] fix: an extra field of a mention can be set to True

---
 udapi/core/coref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 583346e..4570379 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1063,7 +1063,9 @@ class OtherDualDict(collections.abc.MutableMapping):
         if value is None or value == '':
             self.__delitem__(key)
         else:
-            value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
+            # Fields without a value (stored as True) can be set as well.
+            if isinstance(value, str):
+                value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
             self._dict[key] = value
 
     def __delitem__(self, key):
-- 
2.43.0


From a28b039ea78f706362583038a3139da05cba5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 106/155] fix: corefud.CountGaps counted the last paragraph as
 empty if any of its sentences was, and ignored mentions of empty nodes

---
 udapi/block/corefud/countgaps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/countgaps.py b/udapi/block/corefud/countgaps.py
index fc45540..ae0a247 100644
--- a/udapi/block/corefud/countgaps.py
+++ b/udapi/block/corefud/countgaps.py
@@ -54,12 +54,12 @@ class CountGaps(Block):
                 curr_par = []
                 is_empty_par = True
             if tree.newpar:
-                if not tree.newdoc and is_empty_par:
+                if curr_par and is_empty_par:
                     empty_pars.append(curr_par)
                 curr_par = []
                 is_empty_par = True
 
-            has_mention = any(node.coref_mentions for node in tree.descendants)
+            has_mention = any(node.coref_mentions for node in tree.descendants_and_empty)
             if not has_mention:
                 curr_seq.append(tree.sent_id)
                 curr_par.append(tree.sent_id)
@@ -73,7 +73,7 @@ class CountGaps(Block):
             empty_seqs.append(curr_seq)
         newdoc_seq_counter = self._count_empty_seqs(empty_seqs)
         file_counters["seq"].update(newdoc_seq_counter)
-        if curr_par:
+        if is_empty_par and curr_par:
             empty_pars.append(curr_par)
         newdoc_par_counter = self._count_empty_seqs(empty_pars)
         file_counters["par"].update(newdoc_par_counter)
-- 
2.43.0


From 1027d20332fb77fd997c76643d3a3b13ccc027b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 107/155] fix: corefud.PrintMentions ignored print_total=0 and
 print_should=0

---
 udapi/block/corefud/printmentions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index d011f68..072c8a2 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -32,8 +32,8 @@ class PrintMentions(Block):
         if shuffle:
             random.seed(42)
         self.print_other_forms = print_other_forms
-        self.print_total = print_total,
-        self.print_should = print_should,
+        self.print_total = print_total
+        self.print_should = print_should
         print_class = TextModeTreesHtml if html else TextModeTrees
         self.print_block = print_class(
                 print_sent_id=print_sent_id, print_text=print_text, add_empty_line=add_empty_line, indent=indent,
-- 
2.43.0


From 61cbe629a484bdc19a689b0e2ecddaa895986b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 108/155] fix: corefud.PrintMentions left MISC Mark in the
 mentions beyond max_trees

---
 udapi/block/corefud/printmentions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index 072c8a2..610d281 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -153,9 +153,6 @@ class PrintMentions(Block):
             if self.almost_forest != 'include' and not self._ok(self._is_forest(mention, mwords, True), self.almost_forest):
                 continue
 
-            for w in mention.words:
-                w.misc['Mark'] = 1
-
             seen_trees += 1
             if self.max_trees and seen_trees > self.max_trees:
                 if not self.print_total:
@@ -175,6 +172,8 @@ class PrintMentions(Block):
                         for form, count in counter.most_common(self.print_other_forms):
                             print(f' "{form}"({count})', end='')
                         print()
+                for w in mention.words:
+                    w.misc['Mark'] = 1
                 self.print_block.process_tree(mention.head.root)
                 for w in mention.words:
                     del w.misc['Mark']
-- 
2.43.0


From 2812e9ab89b5c7a4f8da220eded9bef5842f4817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 109/155] fix: corefud.SingleParent compared the depth of a
 parent with itself in its statistics

---
 udapi/block/corefud/singleparent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/singleparent.py b/udapi/block/corefud/singleparent.py
index ee9b194..8102851 100644
--- a/udapi/block/corefud/singleparent.py
+++ b/udapi/block/corefud/singleparent.py
@@ -31,7 +31,7 @@ class SingleParent(Block):
                     empty.deps = [d for d in empty.deps if d['parent'] is highest]
                     continue
                 nonempty_parents.sort(key=lambda n:n._get_attr('depth'))
-                if len(nonempty_parents)>1 and nonempty_parents[0]._get_attr('depth') == nonempty_parents[0]._get_attr('depth'):
+                if len(nonempty_parents)>1 and nonempty_parents[0]._get_attr('depth') == nonempty_parents[1]._get_attr('depth'):
                     self._reasons['same-depth'] += 1
                     #empty.misc['Mark'] = f"same-depth:{empty.deps}"
                 else:
-- 
2.43.0


From 6e31669b2d95c9b0a0c8d9cdf88d48a29e180a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 110/155] fix: corefud.Stats per_doc=1 crashed on documents
 without newdoc

---
 udapi/block/corefud/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/stats.py b/udapi/block/corefud/stats.py
index 5368cab..96f2b4b 100644
--- a/udapi/block/corefud/stats.py
+++ b/udapi/block/corefud/stats.py
@@ -111,7 +111,7 @@ class Stats(Block):
                 return
             else:
                 docname = doc.meta['loaded_from'] if self.docname == 'filename' else doc[0].trees[0].newdoc
-                print(f"{docname:{self.docname_len}}", end='&' if self.style.startswith('tex') else '\n')
+                print(f"{str(docname):{self.docname_len}}", end='&' if self.style.startswith('tex') else '\n')
         elif self.style.startswith('tex-'):
             print(f"{self.counter['documents']:4} documents &")
         self._lines_printed += 1
-- 
2.43.0


From ddb0e0ac385bf97085d73baa622f165133402ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 111/155] fix: corefud.MiscStatsTex crashed on MISC attributes
 without a value

---
 udapi/block/corefud/miscstatstex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/miscstatstex.py b/udapi/block/corefud/miscstatstex.py
index 25d3751..998bfe7 100644
--- a/udapi/block/corefud/miscstatstex.py
+++ b/udapi/block/corefud/miscstatstex.py
@@ -34,7 +34,7 @@ class MiscStatsTex(Block):
             distrvalues = []
             
             for value,freq in self.valuecounter[attrname].most_common(self.maxvalues):
-                value = re.sub(r'_',r'\\_',value)
+                value = re.sub(r'_',r'\\_',str(value))
                 distrvalues.append(f'\\attr{{{str(value)}}} {100*freq/total:2.1f}~\\%')
 
             attrname = re.sub(r'_',r'\\_',attrname)
-- 
2.43.0


From 2a86383a5bc81c9c4257887e4e359cd530874b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 112/155] fix: read.OldCorefUD crashed on bridging relations
 with a colon

---
 udapi/block/read/oldcorefud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/oldcorefud.py b/udapi/block/read/oldcorefud.py
index 73e05f3..56d2eb2 100644
--- a/udapi/block/read/oldcorefud.py
+++ b/udapi/block/read/oldcorefud.py
@@ -62,7 +62,7 @@ class OldCorefUD(udapi.block.read.conllu.Conllu):
                 if bridging_str:
                     mention._bridging = BridgingLinks(mention)
                     for link_str in bridging_str.split(','):
-                        target, relation = link_str.split(':')
+                        target, relation = link_str.split(':', 1)
                         target = self._fix_id(target)
                         if target == eid:
                             _error("Bridging cannot self-reference the same entity: " + target, strict)
-- 
2.43.0


From 2bb0b62efef76b85de1201db9c7a7c004c183d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 113/155] fix: corefud.MarkCrossing overlooked mentions which
 cross in an empty node

---
 udapi/block/corefud/markcrossing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/corefud/markcrossing.py b/udapi/block/corefud/markcrossing.py
index 8064e67..a30e519 100644
--- a/udapi/block/corefud/markcrossing.py
+++ b/udapi/block/corefud/markcrossing.py
@@ -22,6 +22,9 @@ class MarkCrossing(Block):
         else:
             return mention.span
 
+    def process_empty_node(self, empty_node):
+        self.process_node(empty_node)
+
     def process_node(self, node):
         if len(node.coref_mentions) > 1:
             for mA, mB in itertools.combinations(node.coref_mentions, 2):
-- 
2.43.0


From 80bbda0407aa2342f691d12dfb9e7c128c4c1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:49 +0000
Subject: [PATCH 114/155] fix: read.OldCorefUD merged clusters whose IDs differ
 only in hyphens

---
 udapi/block/read/oldcorefud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/oldcorefud.py b/udapi/block/read/oldcorefud.py
index 56d2eb2..f0d7273 100644
--- a/udapi/block/read/oldcorefud.py
+++ b/udapi/block/read/oldcorefud.py
@@ -20,7 +20,7 @@ class OldCorefUD(udapi.block.read.conllu.Conllu):
         self.new2orig = {}
 
     def _fix_id(self, cid):
-        if not cid or '-' not in cid:
+        if not cid:
             return cid
         new_cid = self.orig2new.get(cid)
         if new_cid is None:
-- 
2.43.0


From ace7debbe35464ff099b14d2705aee89e2d5915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:49 +0000
Subject: [PATCH 115/155] fix: write.OldCorefUD crashed on documents without
 the header global.Entity

---
 udapi/block/write/oldcorefud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/oldcorefud.py b/udapi/block/write/oldcorefud.py
index 49f9beb..6b1a154 100644
--- a/udapi/block/write/oldcorefud.py
+++ b/udapi/block/write/oldcorefud.py
@@ -15,7 +15,7 @@ class OldCorefUD(udapi.block.write.conllu.Conllu):
             for key in list(node.misc):
                 if any(re.match(attr + r'(\[\d+\])?$', key) for attr in attrs):
                     del node.misc[key]
-        del doc.meta['global.Entity']
+        doc.meta.pop('global.Entity', None)
 
         # doc._eid_to_entity is a dict, which is insertion ordered in Python 3.7+.
         # The insertion order is sorted according to CorefEntity.__lt__ (see few lines above).
-- 
2.43.0


From 14bb895d068032912d46bb2a27d6a499dfd1c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:32 +0000
Subject: [PATCH 116/155] fix: corefud.Stats crashed on (or miscounted) heads
 of mentions without UPOS

---
 udapi/block/corefud/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/stats.py b/udapi/block/corefud/stats.py
index 96f2b4b..0be7284 100644
--- a/udapi/block/corefud/stats.py
+++ b/udapi/block/corefud/stats.py
@@ -69,8 +69,9 @@ class Stats(Block):
                 self.counter[f"m_len_{min(non_empty, self.m_len_max)}"] += 1
                 if self.report_details:
                     upos = 'other'
-                    if not self.selected_upos or mention.head.upos in self.selected_upos:
-                        upos = mention.head.upos
+                    head_upos = mention.head.upos or '_'
+                    if not self.selected_upos or head_upos in self.selected_upos:
+                        upos = head_upos
                     self.counter['m_head_upos_' + upos] += 1
                     self.counter['m_with_empty'] += 1 if all_words > non_empty else 0
                     self.counter['m_with_gaps'] += 1 if ',' in mention.span else 0
-- 
2.43.0


From 7e11540f2ae0b55b208c481997de364c60e79598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 117/155] fix: corefud.Link2Cluster crashed on cyclic or
 duplicate links

---
 udapi/block/corefud/link2cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/link2cluster.py b/udapi/block/corefud/link2cluster.py
index 0829653..1fdb911 100644
--- a/udapi/block/corefud/link2cluster.py
+++ b/udapi/block/corefud/link2cluster.py
@@ -104,7 +104,8 @@ class Link2Cluster(Block):
                     # While the official API supports "stealing" a single mention (m.entity = another_entity),
                     # the implementation below using _mentions and _entity is a bit faster.
                     e_ante, e_this = this_node.coref_entities[0], ante_node.coref_entities[0]
-                    assert e_ante != e_this
+                    if e_ante == e_this:
+                        continue
                     for mention in e_ante.mentions:
                         mention._entity = e_this
                     e_this._mentions.extend(e_ante.mentions)
-- 
2.43.0


From 9681594c4dc9350044966df257a07a4b64d94c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:52 +0000
Subject: [PATCH 118/155] fix: ud.es.AddMwt crashed on "al" or "del" at the end
 of a sentence

---
 udapi/block/ud/es/addmwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/es/addmwt.py b/udapi/block/ud/es/addmwt.py
index 92f8016..67d439b 100644
--- a/udapi/block/ud/es/addmwt.py
+++ b/udapi/block/ud/es/addmwt.py
@@ -101,6 +101,8 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
     def postprocess_mwt(self, mwt):
         if mwt.form.lower() in {'al', 'del'} and mwt.words[1].parent.precedes(mwt.words[1]):
             head = mwt.words[1].next_node
+            if head is None:
+                return
             while head.upos not in {'NOUN', 'PROPN'}:
                 if head.parent.precedes(head) or head.is_root():
                     head = mwt.words[1].next_node
-- 
2.43.0


From 6a55058ccd8a7c9a3fff42c89d80c1d49024378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 119/155] fix: ud.fr.AddMwt crashed on a contraction at the end
 of a sentence

---
 udapi/block/ud/fr/addmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fr/addmwt.py b/udapi/block/ud/fr/addmwt.py
index 948a927..f8c9653 100644
--- a/udapi/block/ud/fr/addmwt.py
+++ b/udapi/block/ud/fr/addmwt.py
@@ -64,7 +64,7 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
                 pass
             elif mwt.words[0].precedes(mwt.words[0].parent):
                 mwt.words[1].parent = mwt.words[0].parent
-            else:
+            elif mwt.words[1].next_node is not None:
                 head = mwt.words[1].next_node
                 while head.upos not in {'NOUN', 'PROPN'} and not head.is_root():
                     if head.parent.precedes(head):
-- 
2.43.0


From 817c5fe1482ef58174047b767453fea01421fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 120/155] fix: ud.PrintFixed crashed on a fixed dependent to
 the left of its head

---
 udapi/block/ud/printfixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/printfixed.py b/udapi/block/ud/printfixed.py
index 313943b..ed9e97e 100644
--- a/udapi/block/ud/printfixed.py
+++ b/udapi/block/ud/printfixed.py
@@ -54,7 +54,7 @@ class PrintFixed(Block):
             logging.info('Read %d known fixed expressions.' % n)
 
     def process_node(self, node):
-        fixed_children = [x for x in node.children if x.udeprel == 'fixed']
+        fixed_children = [x for x in node.children(following_only=True) if x.udeprel == 'fixed']
         if len(fixed_children) > 0:
             # Fixed children are always to the right of of the parent. But there
             # may be other nodes in between that are not fixed children (for
-- 
2.43.0


From 5de99a9ee479596aacf7cf4569cdd4615bf026f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 121/155] fix: demo.RehangPrepositions crashed on prepositions
 attached to the root

---
 udapi/block/demo/rehangprepositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/demo/rehangprepositions.py b/udapi/block/demo/rehangprepositions.py
index d25e29b..24fe411 100644
--- a/udapi/block/demo/rehangprepositions.py
+++ b/udapi/block/demo/rehangprepositions.py
@@ -6,7 +6,7 @@ class RehangPrepositions(Block):
     """This block takes all prepositions (upos=ADP) and rehangs them above their parent."""
 
     def process_node(self, node):
-        if node.upos == "ADP":
+        if node.upos == "ADP" and not node.parent.is_root():
             origparent = node.parent
             node.parent = origparent.parent
             origparent.parent = node
-- 
2.43.0


From 2dca95ef9c534d17cb4f7d3e3cf0a45b28564f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 122/155] fix: ud.de.FixGSD crashed on a number which depends
 on its period

---
 udapi/block/ud/de/fixgsd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/ud/de/fixgsd.py b/udapi/block/ud/de/fixgsd.py
index 65d1268..a42eb01 100644
--- a/udapi/block/ud/de/fixgsd.py
+++ b/udapi/block/ud/de/fixgsd.py
@@ -21,6 +21,10 @@ class FixGSD(Block):
                 # Merge the number and the period into one token.
                 number = node.prev_node
                 period = node
+                # If the number depends on the period, re-attach it to the parent of the period to prevent cycles.
+                if number.is_descendant_of(period):
+                    number.parent = period.parent
+                    number.deprel = period.deprel
                 # The period should not have any children but if it does, re-attach them to the number.
                 for c in period.children:
                     c.parent = number
-- 
2.43.0


From bbda3d54e18d1978fdb183e5b032af2819e4ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 123/155] fix: ud.id.FixGSD crashed on "satu" near the end of a
 sentence

---
 udapi/block/ud/id/fixgsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/id/fixgsd.py b/udapi/block/ud/id/fixgsd.py
index d328212..b22d8ef 100644
--- a/udapi/block/ud/id/fixgsd.py
+++ b/udapi/block/ud/id/fixgsd.py
@@ -331,7 +331,7 @@ class FixGSD(Block):
         if node.form == 'nya' and node.parent.form.lower() == 'satu':
             satu0 = node.parent
             nya = node
-            if satu0.next_node.form == '-':
+            if satu0.next_node and satu0.next_node.form == '-' and satu0.next_node.next_node:
                 dash = satu0.next_node
                 if dash.next_node.form.lower() == 'satu':
                     satu1 = dash.next_node
-- 
2.43.0


From 82cb3626ec5d149c7acdd97136d74dc941671fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:25 +0000
Subject: [PATCH 124/155] fix: ud.la.MarkFeatsBugs crashed on "inuicem" with
 PronType=Ind

---
 udapi/block/ud/la/markfeatsbugs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/la/markfeatsbugs.py b/udapi/block/ud/la/markfeatsbugs.py
index a7b506e..9f81cdd 100644
--- a/udapi/block/ud/la/markfeatsbugs.py
+++ b/udapi/block/ud/la/markfeatsbugs.py
@@ -136,7 +136,7 @@ class MarkFeatsBugs(udapi.block.ud.markfeatsbugs.MarkFeatsBugs):
                 af['PronType'].append('Ind')
             elif node.lemma in ['inuicem', 'invicem']:
                 af['PronType'].append('Rcp')
-                rf.remove('Case')
+                rf = [f for f in rf if f != 'Case']
             if node.lemma in ['qui', 'quicumque', 'quisquis']:
                 af['PronType'].append('Rel')
             if node.lemma in [ 'ecquis', 'ecqui', 'numquis', 'qui', 'quis', 'quisnam']:
-- 
2.43.0


From 417b72d849842db40578749ca453470dd0f7dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 125/155] fix: ud.pt.AddHyphenMwt deleted words attached to the
 hyphen

---
 udapi/block/ud/pt/addhyphenmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/pt/addhyphenmwt.py b/udapi/block/ud/pt/addhyphenmwt.py
index 9492b1a..cd3f944 100644
--- a/udapi/block/ud/pt/addhyphenmwt.py
+++ b/udapi/block/ud/pt/addhyphenmwt.py
@@ -31,7 +31,7 @@ class AddHyphenMwt(Block):
                 else:
                     compound_form = "".join(t.form for t in compound)
                     for hyphen in compound[1::2]:
-                        hyphen.remove()
+                        hyphen.remove(children='rehang')
                     root.create_multiword_token([w for w in words if w.form != '-'], compound_form)
                     root.text = None
             i += 1
-- 
2.43.0


From 6bc75cdca83c7547e1174ede4368735f56193444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 126/155] fix: ud.mr.AddFormsInMwt took the lemma of a
 postposition for a regular expression

---
 udapi/block/ud/mr/addformsinmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/mr/addformsinmwt.py b/udapi/block/ud/mr/addformsinmwt.py
index bd63ee7..2126992 100644
--- a/udapi/block/ud/mr/addformsinmwt.py
+++ b/udapi/block/ud/mr/addformsinmwt.py
@@ -56,7 +56,7 @@ class AddFormsInMwt(Block):
                     else:
                         logging.info("Cannot decompose %s+ADP multiword token '%s'. Part lemmas are '%s' and '%s'." % (mwt.words[0].upos, mwt.form, mwt.words[0].lemma, mwt.words[1].lemma))
                 else: # not the possessive 'चा'
-                    m = re.match(r'^(.+)' + mwt.words[1].lemma + r'$', mwt.form)
+                    m = re.match(r'^(.+)' + re.escape(mwt.words[1].lemma) + r'$', mwt.form)
                     if m:
                         if node == mwt.words[0]:
                             node.form = m.group(1)
-- 
2.43.0


From b743fbe861bd8e1facf45ef4b86287fff8ce2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 127/155] fix: ud.AddMwt duplicated MISC copied to a word also
 at the multiword token

---
 udapi/block/ud/addmwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/addmwt.py b/udapi/block/ud/addmwt.py
index 996f4dc..d5942af 100644
--- a/udapi/block/ud/addmwt.py
+++ b/udapi/block/ud/addmwt.py
@@ -56,10 +56,10 @@ class AddMwt(Block):
                         # However, SpaceAfter should be annotated only on the token level,
                         # so make sure it is not accidentally copied on the word level.
                         if attr == 'misc':
-                            orig_attr['misc'].clear()
+                            mwt_misc.clear()
                             for a in 'SpaceAfter SpacesAfter SpacesBefore'.split():
                                 if new_node.misc[a]:
-                                    orig_attr['misc'][a] = new_node.misc[a]
+                                    mwt_misc[a] = new_node.misc[a]
                                     del new_node.misc[a]
 
                     elif attr == 'feats' and '*' in values[i]:
-- 
2.43.0


From 2c6a066c38b5ac3a839adc300fa56a710816d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:07 +0000
Subject: [PATCH 128/155] fix: ud.Convert1to2 crashed (cycle) on a remnant
 within another remnant

---
 udapi/block/ud/convert1to2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index d76c50b..fcbe207 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -298,8 +298,9 @@ class Convert1to2(Block):
             return
 
         (first_conjunct, _) = find_minimal_common_treelet(remnants[0].parent.parent, *remnants)
-        if first_conjunct == root:
-            self.log(remnants[0], 'remnant', "remnants' (+their grandpas') common governor is root")
+        if first_conjunct == root or first_conjunct in remnants:
+            governor = 'root' if first_conjunct == root else 'a remnant'
+            self.log(remnants[0], 'remnant', "remnants' (+their grandpas') common governor is " + governor)
             return
 
         # top_remnants = remnants with non-remnant parent,
-- 
2.43.0


From 2ff1d06107d8be5637bdcf623474f568f12d1438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:50 +0000
Subject: [PATCH 129/155] fix: multi-word tokens with a range outside of the
 sentence were silently cut or included the root

---
 udapi/block/read/conll.py  | 2 ++
 udapi/block/read/conllu.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 62f5c7a..b9ea1cf 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -161,6 +161,8 @@ class Conll(udapi.block.read.conllu.Conllu):
         # Create multi-word tokens.
         for attr2value in mwts:
             range_start, range_end = attr2value['ord'].split('-')
+            if not 1 <= int(range_start) <= int(range_end) < len(nodes):
+                raise ValueError(f"Wrong MWT range {attr2value['ord']} in a sentence with {len(nodes) - 1} words")
             words = nodes[int(range_start):int(range_end) + 1]
             root.create_multiword_token(words, form=attr2value.get('form'), misc=attr2value.get('misc'))
 
diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index ecca4a4..d28e02a 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -233,6 +233,8 @@ class Conllu(BaseReader):
             except ValueError:
                 logging.warning(f"Wrong MWT range in\n{fields[0]}\n\n{lines}")
                 raise
+            if not 1 <= int(range_start) <= int(range_end) < len(nodes):
+                raise ValueError(f"Wrong MWT range {fields[0]} in a sentence with {len(nodes) - 1} words")
             words = nodes[int(range_start):int(range_end) + 1]
             root.create_multiword_token(words, form=fields[1], misc=fields[-1])
 
-- 
2.43.0


From f2b6ccb99f695c4aa2fe511d057849f4d72d266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:50 +0000
Subject: [PATCH 130/155] fix: FEATS of multi-word tokens (Typo=Yes) were lost
 when stored

---
 udapi/block/read/conll.py   |  3 ++-
 udapi/block/read/conllu.py  |  2 +-
 udapi/block/write/conllu.py |  4 +++-
 udapi/core/mwt.py           | 23 +++++++++++++++++++++--
 udapi/core/root.py          |  5 +++--
 5 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index b9ea1cf..41a0825 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -164,6 +164,7 @@ class Conll(udapi.block.read.conllu.Conllu):
             if not 1 <= int(range_start) <= int(range_end) < len(nodes):
                 raise ValueError(f"Wrong MWT range {attr2value['ord']} in a sentence with {len(nodes) - 1} words")
             words = nodes[int(range_start):int(range_end) + 1]
-            root.create_multiword_token(words, form=attr2value.get('form'), misc=attr2value.get('misc'))
+            root.create_multiword_token(words, form=attr2value.get('form'), misc=attr2value.get('misc'),
+                                        feats=attr2value.get('feats'))
 
         return root
diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index d28e02a..bc23084 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -236,6 +236,6 @@ class Conllu(BaseReader):
             if not 1 <= int(range_start) <= int(range_end) < len(nodes):
                 raise ValueError(f"Wrong MWT range {fields[0]} in a sentence with {len(nodes) - 1} words")
             words = nodes[int(range_start):int(range_end) + 1]
-            root.create_multiword_token(words, form=fields[1], misc=fields[-1])
+            root.create_multiword_token(words, form=fields[1], misc=fields[-1], feats=fields[5])
 
         return root
diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 13b4c19..7d5eb24 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -122,7 +122,9 @@ class Conllu(BaseWriter):
             if mwt and node._ord > last_mwt_id:
                 print('\t'.join((mwt.ord_range,
                                  '_' if mwt.form is None else mwt.form,
-                                 '_\t_\t_\t_\t_\t_\t_',
+                                 '_\t_\t_',
+                                 '_' if mwt._feats is None else str(mwt.feats),
+                                 '_\t_\t_',
                                  '_' if mwt._misc is None else str(mwt.misc))))
                 last_mwt_id = mwt.words[-1]._ord
 
diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 95dc093..2b7c91a 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -1,19 +1,38 @@
 """MWT class represents a multi-word token."""
 from udapi.core.dualdict import DualDict
+from udapi.core.feats import Feats
 
 
 class MWT(object):
     """Class for representing multi-word tokens in UD trees."""
-    __slots__ = ['words', 'form', '_misc', 'root']
+    __slots__ = ['words', 'form', '_feats', '_misc', 'root']
 
-    def __init__(self, words=None, form=None, misc=None, root=None):
+    def __init__(self, words=None, form=None, misc=None, root=None, feats=None):
         self.words = words if words is not None else []
         self.form = form
+        self._feats = Feats(feats) if feats and feats != '_' else None
         self._misc = DualDict(misc) if misc and misc != '_' else None
         self.root = root
         for word in self.words:
             word._mwt = self  # pylint: disable=W0212
 
+    @property
+    def feats(self):
+        """Property for morphological features stored as a `Feats` object.
+
+        CoNLL-U allows only Typo=Yes in multi-word tokens.
+        """
+        if self._feats is None:
+            self._feats = Feats()
+        return self._feats
+
+    @feats.setter
+    def feats(self, value):
+        if self._feats is None:
+            self._feats = Feats(value)
+        else:
+            self._feats.set_mapping(value)
+
     @property
     def misc(self):
         """Property for MISC attributes stored as a `DualDict` object.
diff --git a/udapi/core/root.py b/udapi/core/root.py
index eb295b6..fc23205 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -167,7 +167,7 @@ class Root(Node):
         return new_node
 
     # TODO document whether misc is a string or dict or it can be both
-    def create_multiword_token(self, words=None, form=None, misc=None):
+    def create_multiword_token(self, words=None, form=None, misc=None, feats=None):
         """Create and return a new multi-word token (MWT) in this tree.
 
         The new MWT can be optionally initialized using the following args.
@@ -175,6 +175,7 @@ class Root(Node):
         words: a list of nodes which are part of the new MWT
         form: string representing the surface form of the new MWT
         misc: misc attribute of the new MWT
+        feats: morphological features of the new MWT (usually just Typo=Yes)
         """
         words = sorted(words)
         # Nested or overlapping MWTs are not allowed in CoNLL-U,
@@ -183,7 +184,7 @@ class Root(Node):
             if w.multiword_token:
                 w.multiword_token.remove()
         # Now, create the new MWT.
-        mwt = MWT(words, form, misc, root=self)
+        mwt = MWT(words, form, misc, root=self, feats=feats)
         self._mwts.append(mwt)
         if words[-1].misc["SpaceAfter"] == "No":
             mwt.misc["SpaceAfter"] = "No"
-- 
2.43.0


From 1d6271950d7dfc9c6e650ef1e8221de28286aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:15 +0000
Subject: [PATCH 131/155] fix: FEATS of multi-word tokens (Typo=Yes) were lost
 when words moved to another tree

---
 udapi/core/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index fc23205..072e9fc 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -343,7 +343,7 @@ class Root(Node):
                 if mwt and mwt.root is not self:
                     words = [w for w in mwt.words if w in nodes]
                     mwt.remove()
-                    self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
+                    self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc, feats=mwt.feats)
         if empty_follows:
             old_len = len(self._descendants)
             old_root.empty_nodes = []
-- 
2.43.0


From 89fd085b966063b7681c72cff2b67a0b0945cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 132/155] fix: ud.MarkBugs did not mark a bug whose name is a
 part of the name of another one marked before

---
 udapi/block/ud/markbugs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/markbugs.py b/udapi/block/ud/markbugs.py
index bf47ed7..9aca336 100644
--- a/udapi/block/ud/markbugs.py
+++ b/udapi/block/ud/markbugs.py
@@ -73,7 +73,7 @@ class MarkBugs(Block):
             return
         logging.debug('node %s %s: %s', node.address(), short_msg, long_msg)
         if node.misc['Bug']:
-            if short_msg not in node.misc['Bug']:
+            if short_msg not in node.misc['Bug'].split(','):
                 node.misc['Bug'] += ',' + short_msg
         else:
             node.misc['Bug'] = short_msg
-- 
2.43.0


From 9255bfc01781e43b45b2562826f80e0fcaccd721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 133/155] fix: mwe.Normalize and mwe.ToSubDeprels stored "1:"
 and "obj:" for multiword expressions without a type

---
 udapi/block/mwe/normalize.py    | 2 +-
 udapi/block/mwe/tosubdeprels.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/mwe/normalize.py b/udapi/block/mwe/normalize.py
index e7ebf24..1eb739e 100644
--- a/udapi/block/mwe/normalize.py
+++ b/udapi/block/mwe/normalize.py
@@ -60,7 +60,7 @@ class Normalize(Block):
             # There may be multiple MWEs this node is member of.
             annotations = []
             for m in mwes_by_nodes[n.ord]:
-                if n.ord == mwes[m]['nodes'][0]:
+                if n.ord == mwes[m]['nodes'][0] and mwes[m]['type']:
                     annotations.append("%s:%s" % (m, mwes[m]['type']))
                 else:
                     annotations.append(m)
diff --git a/udapi/block/mwe/tosubdeprels.py b/udapi/block/mwe/tosubdeprels.py
index 3682c0c..beff06a 100644
--- a/udapi/block/mwe/tosubdeprels.py
+++ b/udapi/block/mwe/tosubdeprels.py
@@ -58,5 +58,5 @@ class ToSubDeprels(Block):
                 for m in mwes_by_nodes[n.ord]:
                     type = re.sub(r"\.", '', mwes[m]['type'].lower())
                     # Add the MWE type to the DEPREL if the parent is also in the same MWE.
-                    if n.parent.ord > 0 and m in mwes_by_nodes[n.parent.ord]:
+                    if type and n.parent.ord > 0 and m in mwes_by_nodes[n.parent.ord]:
                         n.deprel += ':' + type
-- 
2.43.0


From d8dead38a4d7a778a72168a849f0792e93989053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 134/155] fix: msf.CreateAbstract looked for an abstract
 subject among the parents of the predicate instead of its children

---
 udapi/block/msf/createabstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/msf/createabstract.py b/udapi/block/msf/createabstract.py
index fbdf73e..8ce79d3 100644
--- a/udapi/block/msf/createabstract.py
+++ b/udapi/block/msf/createabstract.py
@@ -21,7 +21,8 @@ class CreateAbstract(Block):
             # Current node is a finite predicate. Does it have a subject? If not, create an abstract one.
             if not any([x.udeprel in ['nsubj', 'csubj'] for x in node.children]):
                 # There could already be an abstract subject. We have to look for it in the enhanced graph.
-                if not any([re.match(r"^[nc]subj", edep['deprel']) for edep in node.deps]):
+                if not any(edep['parent'] is node and re.match(r"^[nc]subj", edep['deprel'])
+                           for empty in node.root.empty_nodes for edep in empty.deps):
                     # Create an abstract subject.
                     subject = node.create_empty_child('nsubj')
                     subject.upos = 'PRON'
-- 
2.43.0


From 9f5d8380dff645e7aad0dbe3a319ce747ee2328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 135/155] fix: demo.Complexity crashed on sentences without a
 stored text

---
 udapi/block/demo/complexity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/demo/complexity.py b/udapi/block/demo/complexity.py
index 99e8a04..83486c3 100644
--- a/udapi/block/demo/complexity.py
+++ b/udapi/block/demo/complexity.py
@@ -215,7 +215,7 @@ class Complexity(BaseWriter):
 
 
     def process_tree(self, root):
-        print("# " + root.text)
+        print("# " + root.get_sentence())
 
         allnodes = root.descendants
         depth, clause_depth = {0: 0}, {0: 0}
-- 
2.43.0


From 8e3e4a10c73d3acc5135cc39add3c5c6a31aa76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:57 +0000
Subject: [PATCH 136/155] fix: root.is_nonprojective_gap() was True, so
 ud.MarkBugs did not report punct-nonproj-gap at children of the root

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index ff9fd88..4b36730 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -972,7 +972,7 @@ class Node(object):
             node = node._parent
             ancestors.add(node)
         all_nodes = node._descendants
-        for left_node in all_nodes[:self._ord - 1]:
+        for left_node in all_nodes[:max(self._ord - 1, 0)]:
             if self.precedes(left_node._parent) and left_node._parent not in ancestors:
                 return True
         for right_node in all_nodes[self._ord:]:
-- 
2.43.0


From 0d6e86f390d76f0305b184f20df11cfe44ac7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:15 +0000
Subject: [PATCH 137/155] fix: ComplyWithText adds punctuation separated by a
 space from the first token

---
 udapi/block/ud/complywithtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 8afd29a..f9c1a2f 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -227,7 +227,7 @@ class ComplyWithText(Block):
             if edit == 'equal':
                 pass
             elif edit == 'insert':
-                forms = text[text_lo:text_hi].split(' ')
+                forms = text[text_lo:text_hi].split()
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
                     next_node = char_nodes[tree_lo].words[0]
                     for f in reversed(forms):
-- 
2.43.0


From fbd6334ce945e13c827e1ffe2da881b087629e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 138/155] fix: ComplyWithText adds several punctuation tokens
 in the order of the text

---
 udapi/block/ud/complywithtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index f9c1a2f..652d829 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -230,7 +230,7 @@ class ComplyWithText(Block):
                 forms = text[text_lo:text_hi].split()
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
                     next_node = char_nodes[tree_lo].words[0]
-                    for f in reversed(forms):
+                    for f in forms:
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
                         new.misc[self.added_label] = 1
-- 
2.43.0


From 7fad3a5247afe690d0be235d1d3b748419c0f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:51 +0000
Subject: [PATCH 139/155] =?UTF-8?q?fix:=20ud.de.AddMwt=20splits=20f=C3=BCr?=
 =?UTF-8?q?s=20to=20f=C3=BCr=20das?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 udapi/block/ud/de/addmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/de/addmwt.py b/udapi/block/ud/de/addmwt.py
index 18778a4..b317a16 100644
--- a/udapi/block/ud/de/addmwt.py
+++ b/udapi/block/ud/de/addmwt.py
@@ -14,7 +14,7 @@ MWTS = {
     'aufs':    {'form': 'auf das', },
     'beim':    {'form': 'bei dem', },
     'durchs':  {'form': 'durch das', },
-    'fürs':    {'form': 'fürs das', },
+    'fürs':    {'form': 'für das', },
     'hinterm': {'form': 'hinter dem', },
     'hinters': {'form': 'hinter das', },
     'im':      {'form': 'in dem', },
-- 
2.43.0


From 8fe1dc89b3e3d2922963590f73fb7f3f1687a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:51 +0000
Subject: [PATCH 140/155] fix: ud.ca.AddMwt keeps the lemmas given in its table

---
 udapi/block/ud/ca/addmwt.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/udapi/block/ud/ca/addmwt.py b/udapi/block/ud/ca/addmwt.py
index 49b79da..6d8ec61 100644
--- a/udapi/block/ud/ca/addmwt.py
+++ b/udapi/block/ud/ca/addmwt.py
@@ -20,7 +20,6 @@ MWTS = {
 
 # shared values for all entries in MWTS
 for v in MWTS.values():
-    v['lemma'] = v['form']
     v['upos'] = 'ADP DET'
     v['deprel'] = '* det'
     # The following are the default values
-- 
2.43.0


From 698377aaf47b40b2aff419672857e3e197e345f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:51 +0000
Subject: [PATCH 141/155] fix: util.ResegmentGold does not mark an original
 root as rehanged

---
 udapi/block/util/resegmentgold.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/block/util/resegmentgold.py b/udapi/block/util/resegmentgold.py
index 383510b..927e714 100644
--- a/udapi/block/util/resegmentgold.py
+++ b/udapi/block/util/resegmentgold.py
@@ -137,6 +137,7 @@ class ResegmentGold(Block):
             possible_subroots = sorted([n for n in possible_subroots if n.form == g_subroot.form],
                                        key=lambda n: abs(n.ord - g_subroot.ord))
             the_subroot = possible_subroots[0] if possible_subroots else the_subroot
+            del the_subroot.misc['Rehanged']
         else:
             the_subroot = p_tree.children[0]
             the_subroot.misc['Rehanged'] = 'Yes'
-- 
2.43.0


From 2a5039ebde1932432911afd699a1c5e0b322d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:51 +0000
Subject: [PATCH 142/155] fix: corefud.Stats LaTeX header has as many columns
 as the rows

---
 udapi/block/corefud/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/stats.py b/udapi/block/corefud/stats.py
index 0be7284..f4211db 100644
--- a/udapi/block/corefud/stats.py
+++ b/udapi/block/corefud/stats.py
@@ -210,7 +210,7 @@ class Stats(Block):
                 lines[0] += " "
                 lines[1] += r'& \MC{' + str(self.m_len_max + 1) + r'}{distribution of mention lengths}' + " "*7
         if self.report_details:
-            lines[0] += "rrrr "
+            lines[0] += "rrr "
             lines[1] += r'& \MC{3}{mention type}       '
             lines[2] += r'&w/empty& w/gap&non-tree'
             lines[3] += r'&  [\%] ' * 3
@@ -235,8 +235,8 @@ class Stats(Block):
             lines[2] += r'\cmidrule(lr){' + f"{last_col+3}-{last_col+4}" + '}'
             last_col += 4
             if self.e_len_max:
+                lines[1] += r'\cmidrule(lr){' + f"{last_col+1}-{last_col+self.e_len_max}" + '}'
                 last_col += self.e_len_max
-                lines[1] += r'\cmidrule(lr){6-' + str(last_col) + '}'
         if self.report_mentions:
             lines[1] += r'\cmidrule(lr){' + f"{last_col+1}-{last_col+4}" + '}'
             lines[2] += r'\cmidrule(lr){' + f"{last_col+3}-{last_col+4}" + '}'
-- 
2.43.0


From 7127dc91801b9a1de295bac69b7cf85b804b9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:09 +0000
Subject: [PATCH 143/155] fix: ud.pt.AddMwt attaches em of nisto to the pronoun
 as case

---
 udapi/block/ud/pt/addmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/pt/addmwt.py b/udapi/block/ud/pt/addmwt.py
index daa605b..ad5c8f2 100644
--- a/udapi/block/ud/pt/addmwt.py
+++ b/udapi/block/ud/pt/addmwt.py
@@ -38,7 +38,7 @@ MWTS = {
     'neste':   {'form': 'em este', 'lemma': 'em este'},
     'nisso':   {'form': 'em isso', 'lemma': 'em este'},
     'nisto':   {'form': 'em isto', 'lemma': 'em este',
-                'upos': 'ADP PRON', 'main': 1, 'shape': 'subtree'},
+                'upos': 'ADP PRON', 'deprel': 'case *', 'main': 1, 'shape': 'subtree'},
     'no':      {'form': 'em o', 'lemma': 'em o'}, # PRON cases are excluded below
     'nos':     {'form': 'em os', 'lemma': 'em o'}, # PRON cases are excluded below
     'num':     {'form': 'em um', 'lemma': 'em um'},
-- 
2.43.0


From 7c855baed393270b00d36a345f2975dd33b6633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:01 +0000
Subject: [PATCH 144/155] fix: words keep no deleted cross-sentence mention
 when coreference is loaded leniently

---
 udapi/core/coref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 4570379..3b458a1 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -639,6 +639,7 @@ def load_coref_from_misc(doc, strict=True):
                         entity._mentions.remove(mention)
                         if not entity._mentions:
                             del entities[entity.eid]
+                        continue
                 for w in node.root.descendants_and_empty:
                     if last_word.precedes(w):
                         mention._words.append(w)
-- 
2.43.0


From 2b9e630e32fc50fa67de47d51656ab12f115585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:46 +0000
Subject: [PATCH 145/155] fix: read.Conllu keeps trailing spaces of lines also
 when reading sentence by sentence

---
 udapi/block/read/conllu.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index bc23084..7a6dd4c 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -96,8 +96,8 @@ class Conllu(BaseReader):
         # the whole file if the user wants just first N documents.
         trees, lines, loaded_docs = [], [], 0
         for line in itertools.chain(self.filehandle, ['']):
-            line = line.rstrip()
-            if line == '':
+            line = line.rstrip('\r\n')
+            if not line.strip():
                 tree = self.read_tree_from_lines(lines)
                 lines = []
                 if tree is None:
@@ -117,8 +117,8 @@ class Conllu(BaseReader):
             return None
         lines = []
         for line in self.filehandle:
-            line = line.rstrip()
-            if line != '':
+            line = line.rstrip('\r\n')
+            if line.strip():
                 lines.append(line)
             elif lines:
                 tree = self.read_tree_from_lines(lines)
-- 
2.43.0


From 13e7909100c4a75c218f77daba2736a8c9de4fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:44 +0000
Subject: [PATCH 146/155] fix: read.Conllu crashed on files starting with
 comments without any words

---
 udapi/core/basereader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 582372a..78132aa 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -128,7 +128,8 @@ class BaseReader(Block):
 
         while True:
             try:
-                trees = self.read_trees()
+                # Blocks of comments without any words result in None instead of a tree.
+                trees = [tree for tree in self.read_trees() if tree is not None]
             except NotImplementedError:
                 return False
 
-- 
2.43.0


From 4e793b4df6db1a6c349a70ea5cb8417864575ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:08 +0000
Subject: [PATCH 147/155] fix: entity types were lost when the first mention of
 the entity had an empty etype

---
 udapi/core/coref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 3b458a1..9937e89 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -705,8 +705,8 @@ def load_coref_from_misc(doc, strict=True):
                 elif etype and entity.etype and entity.etype != etype:
                     logging.warning(f"etype mismatch in {node}: {entity.etype} != {etype}")
                     other["orig_etype"] = etype
-                # CorefEntity could be created first with "Bridge=" without any type
-                elif etype and entity.etype is None:
+                # CorefEntity could be created first with "Bridge=" or a mention without any type
+                elif etype and not entity.etype:
                     entity.etype = etype
 
                 if subspan_idx and subspan_idx != '1':
-- 
2.43.0


From bb4ff6c346ac508a881da86a17f1014bdd76787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:53 +0000
Subject: [PATCH 148/155] fix: Root.add_comment removed trailing spaces and
 empty comments at the end of the previous comments

---
 udapi/core/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 072e9fc..180a4f3 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -229,7 +229,7 @@ class Root(Node):
         if not self.comment:
             self.comment = ' ' + string
         else:
-            self.comment = self.comment.rstrip() + "\n " + string
+            self.comment += ('' if self.comment.endswith('\n') else '\n') + ' ' + string
 
     @property
     def token_descendants(self):
-- 
2.43.0


From 11a98db772cbab6434d2b97b74b13b237b6a9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:53 +0000
Subject: [PATCH 149/155] fix: write.TextModeTrees with marked_only and
 print_comments crashed on subtrees

---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 6f49b54..641f6af 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -242,9 +242,9 @@ class TextModeTrees(BaseWriter):
             return True
         if any(self.is_marked(n) for n in allnodes):
             return True
-        if not self.print_comments or root.comment is None or self.mark_re is None:
+        if not self.print_comments or root.root.comment is None or self.mark_re is None:
             return False
-        return self.comment_mark_re.search(root.comment)
+        return self.comment_mark_re.search(root.root.comment)
 
     def process_tree(self, root, force_print=False):
         """Print the tree to (possibly redirected) sys.stdout."""
-- 
2.43.0


From 8a49e9671a7fe491c7e1ce32306bb3d2185967a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:48 +0000
Subject: [PATCH 150/155] fix: read.AddSentences joined the sentence to the
 previous comment if it did not end with a newline

---
 udapi/block/read/addsentences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/addsentences.py b/udapi/block/read/addsentences.py
index e907f18..5c29ec7 100644
--- a/udapi/block/read/addsentences.py
+++ b/udapi/block/read/addsentences.py
@@ -52,6 +52,6 @@ class AddSentences(BaseReader):
             if self.into == 'text':
                 root.text = line.rstrip()
             else:
-                root.comment += ' ' + self.into + " = " + line.rstrip() + "\n"
+                root.add_comment(self.into + ' = ' + line.rstrip())
         # If there are no more sentences, the rest of the files (if any) will never be needed.
         self.finished = not self.files.has_next_file() or not document.bundles
-- 
2.43.0


From 3140c0b13c5dcb91ee03ee8ef7a1488389ee55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:34 +0000
Subject: [PATCH 151/155] fix: SetTranslation split translations at characters
 other than newlines

---
 udapi/block/ud/settranslation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/settranslation.py b/udapi/block/ud/settranslation.py
index 670c781..f2b5488 100644
--- a/udapi/block/ud/settranslation.py
+++ b/udapi/block/ud/settranslation.py
@@ -31,7 +31,7 @@ class SetTranslation(Block):
         super().__init__(**kwargs)
         self.file = file
         fh = open(self.file, 'r', encoding='utf-8')
-        self.trlines = fh.read().splitlines()
+        self.trlines = [line.rstrip('\n') for line in fh]
         self.nlines = len(self.trlines)
         self.iline = 0
         self.overwrite = overwrite
-- 
2.43.0


From 9230ed380d57e0526679723aa81e1a91bb14a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:19 +0000
Subject: [PATCH 152/155] fix: ud.zh.Lemmatize left ordinary verbs without a
 lemma

---
 udapi/block/ud/zh/lemmatize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/zh/lemmatize.py b/udapi/block/ud/zh/lemmatize.py
index abacf29..b3c15dc 100644
--- a/udapi/block/ud/zh/lemmatize.py
+++ b/udapi/block/ud/zh/lemmatize.py
@@ -75,6 +75,8 @@ class Lemmatize(Block):
                 node.lemma = m3.group(1)
                 if node.lemma == '爲':
                     node.lemma = '為'
+            else:
+                node.lemma = node.form
         elif node.form in self.lemma:
             node.lemma = self.lemma[node.form]
         else:
-- 
2.43.0


From 5205c26e3bb9f6156716330e799257873fc5b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:19 +0000
Subject: [PATCH 153/155] fix: ud.en.SetSpaceAfter and ud.ro.SetSpaceAfter did
 not update the text after their own rules

---
 udapi/block/ud/setspaceafter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 13795cd..18e54a4 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -24,7 +24,6 @@ class SetSpaceAfter(Block):
     def process_tree(self, root):
         nodes = root.descendants
         count_of_form = collections.Counter([n.form for n in nodes])
-        self.changed = False
 
         # Undirected double quotes are ambiguous.
         # If there is an even number of quotes in a sentence, suppose they are not nested
@@ -60,6 +59,7 @@ class SetSpaceAfter(Block):
 
         if self.fix_text and self.changed:
             root.text = root.compute_text()
+        self.changed = False
 
     def mark_no_space(self, node):
         """Mark a node with SpaceAfter=No unless it is a goeswith exception."""
-- 
2.43.0


From ae0a806417e775a5c7412be53dd4a87e0b88ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:41 +0000
Subject: [PATCH 154/155] fix: corefud.FixToValidate re-attached words to the
 technical root with a relation other than root

---
 udapi/block/corefud/fixtovalidate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixtovalidate.py b/udapi/block/corefud/fixtovalidate.py
index 48a3608..732cf4b 100644
--- a/udapi/block/corefud/fixtovalidate.py
+++ b/udapi/block/corefud/fixtovalidate.py
@@ -14,7 +14,7 @@ class FixToValidate(Block):
             parent = node.parent
             if node.deprel == "root" and parent is not None and not parent.is_root():
                 #print("\t".join(['Non-0-root:', node.address(), node.upos, str(node.feats), node.parent.upos, str(node.parent.feats)]))
-                if parent.upos == "PUNCT" and parent.parent is not None:
+                if parent.upos == "PUNCT" and not parent.parent.is_root():
                     node.parent = parent.parent
                 if node.upos == "CCONJ":
                     node.deprel = "cc"
-- 
2.43.0


From 8fc52cceb4f1ab19e6eaea5338ea41b34c922f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:25 +0000
Subject: [PATCH 155/155] fix: read.Ccv at the end of a file read by several
 documents

---
 udapi/block/read/ccv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/ccv.py b/udapi/block/read/ccv.py
index eb44936..71e1f9d 100644
--- a/udapi/block/read/ccv.py
+++ b/udapi/block/read/ccv.py
@@ -41,7 +41,10 @@ class Ccv(BaseReader):
     def read_trees(self):
         if self.filehandle is None:
             return None
-        poems = json.load(self.filehandle)
+        content = self.filehandle.read()
+        if not content:
+            return None
+        poems = json.loads(content)
         all_trees = []
         for poem in poems:
             poem_trees = []
-- 
2.43.0

