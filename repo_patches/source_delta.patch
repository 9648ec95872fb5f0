From 5d0464ae58d4535db79069793e33f11b4d72a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 01/17] fix: keep nodes_between inside the requested range

It underflowed (from - start, to - start) for every nested node and went on
past `to`, so text_content() and text_between() panicked on any document
that is more than one level deep.
---
 src/model/fragment.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 55b9187..c273f83 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -145,12 +145,15 @@ impl<S: Schema> Fragment<S> {
     ) {
         let mut pos = 0;
         for child in &self.inner {
+            if pos >= to {
+                break;
+            }
             let end = pos + child.node_size();
             if end > from && f(child, node_start + pos) {
                 if let Some(content) = child.content() {
                     let start = pos + 1;
                     content.nodes_between(
-                        usize::max(0, from - start),
+                        from.saturating_sub(start),
                         usize::min(content.size(), to - start),
                         f,
                         node_start + start,
-- 
2.43.0


From ac7ee66c89ea0b3933b0ef895bbdef545f4402ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 02/17] fix: let an unbounded range end at the end of the
 node's content

Node::slice and Node::replace took node_size() as the default end, which is
past the last valid position, so `doc.slice(n.., _)` always failed.
---
 src/model/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 80869ac..a11a51e 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -121,7 +121,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         include_parents: bool,
     ) -> Result<Slice<S>, SliceError> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
+        let to = util::to(&range, self.content_size());
 
         if from == to {
             return Ok(Slice::default());
@@ -160,8 +160,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         slice: &Slice<S>,
     ) -> Result<Self, ReplaceError<S>> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
-        // FIXME: this max value is my guess, that needs to be tested out
+        let to = util::to(&range, self.content_size());
 
         assert!(to >= from, "replace: {} >= {}", to, from);
 
-- 
2.43.0


From 5cd780c2efdb6243fafe913a380ab3c9ec40de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 03/17] fix: report the marks of text nodes

MarkdownNode::marks() was always None, so adding a mark dropped all other
marks of the text, removing a mark dropped every mark, and marked text was
accepted in code blocks. allow_marks() now looks at the marks it is given,
so that unmarked text stays valid in code blocks.
---
 src/markdown/mod.rs    | 2 +-
 src/markdown/schema.rs | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/markdown/mod.rs b/src/markdown/mod.rs
index 55d5e8e..684ef91 100644
--- a/src/markdown/mod.rs
+++ b/src/markdown/mod.rs
@@ -138,7 +138,7 @@ impl Node<MD> for MarkdownNode {
     }
 
     fn marks(&self) -> Option<&MarkSet<MD>> {
-        None
+        self.text_node().map(|node| &node.marks)
     }
 
     fn mark(&self, set: MarkSet<MD>) -> Self {
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index d224ea8..9ceb61a 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -1,6 +1,6 @@
 use super::MarkdownMarkType;
 use crate::markdown::{MarkdownContentMatch, MarkdownMark, MarkdownNode};
-use crate::model::{ContentMatch, Fragment, MarkSet, Node, NodeType, Schema};
+use crate::model::{ContentMatch, Fragment, Mark, MarkSet, Node, NodeType, Schema};
 
 /// The markdown schema type
 pub struct MD;
@@ -61,8 +61,10 @@ impl MarkdownNodeType {
 }
 
 impl NodeType<MD> for MarkdownNodeType {
-    fn allow_marks(self, _marks: &MarkSet<MD>) -> bool {
-        self._allow_marks()
+    fn allow_marks(self, marks: &MarkSet<MD>) -> bool {
+        marks
+            .into_iter()
+            .all(|mark| self.allows_mark_type(mark.r#type()))
     }
 
     fn allows_mark_type(self, _mark_type: MarkdownMarkType) -> bool {
-- 
2.43.0


From fe9810adf4e18aef5a7aa2a0b88724038fecbb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 04/17] fix: only remove a mark from a set that contains it

Removing a link removed any other link in the set, although a mark that is
not in the set is documented to leave it as it is.
---
 src/model/marks.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model/marks.rs b/src/model/marks.rs
index 54f128b..8388fd7 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -47,10 +47,10 @@ impl<S: Schema> MarkSet<S> {
             .content
             .binary_search_by_key(&mark.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &self.content[index] == mark => {
                 self.content.remove(index);
             }
-            Err(_index) => {}
+            _ => {}
         }
     }
 }
@@ -137,12 +137,12 @@ pub trait Mark<S: Schema<Mark = Self>>:
             .content
             .binary_search_by_key(&self.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &set.content[index] == self => {
                 let mut owned_set = set.into_owned();
                 owned_set.content.remove(index);
                 Cow::Owned(owned_set)
             }
-            Err(_index) => set,
+            _ => set,
         }
     }
 
-- 
2.43.0


From 6a0613663ad0d1d22a13969db389af0b02bdcd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 05/17] fix: join text nodes that end up with the same marks in
 mark steps

Adding or removing a mark left adjacent text nodes with equal marks apart
(upstream uses Fragment.fromArray here, which joins them).
---
 src/transform/mark_step.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/transform/mark_step.rs b/src/transform/mark_step.rs
index 88ce8d0..6f3690a 100644
--- a/src/transform/mark_step.rs
+++ b/src/transform/mark_step.rs
@@ -8,32 +8,34 @@ fn map_fragment_parent<S: Schema, F>(fragment: &Fragment<S>, f: &F, parent: &S::
 where
     F: Fn(S::Node, &S::Node, usize) -> S::Node,
 {
-    let mut mapped = vec![];
+    let mut mapped = Fragment::new();
     for (i, child) in fragment.children().iter().enumerate() {
         let mut child = child.copy(|c| map_fragment_parent(c, f, &*child));
 
         if child.is_inline() {
             child = f(child, parent, i)
         }
-        mapped.push(child)
+        // joins adjacent text nodes that have the same marks now
+        mapped = mapped.append(Fragment::from(vec![child]));
     }
-    Fragment::from(mapped)
+    mapped
 }
 
 fn map_fragment<S: Schema, F>(fragment: &Fragment<S>, f: &F) -> Fragment<S>
 where
     F: Fn(S::Node) -> S::Node,
 {
-    let mut mapped = vec![];
+    let mut mapped = Fragment::new();
     for child in fragment.children() {
         let mut child = child.copy(|c| map_fragment(c, f));
 
         if child.is_inline() {
             child = f(child)
         }
-        mapped.push(child)
+        // joins adjacent text nodes that have the same marks now
+        mapped = mapped.append(Fragment::from(vec![child]));
     }
-    Fragment::from(mapped)
+    mapped
 }
 
 /// Adding a mark on some part of the document
-- 
2.43.0


From c8b699119592896c9d923246bb340c08f9ef448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 06/17] fix: fail instead of panicking on out-of-range numbers
 in a step

A step whose span is inverted, whose open_end is larger than the depth at
its end, whose insert offset overflows or that is applied to a leaf node
panicked instead of returning an error.
---
 src/model/node.rs             | 4 +++-
 src/model/replace.rs          | 9 +++++++--
 src/model/resolved_pos.rs     | 2 +-
 src/transform/replace_step.rs | 2 +-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index a11a51e..6a09b22 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -162,7 +162,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         let from = util::from(&range);
         let to = util::to(&range, self.content_size());
 
-        assert!(to >= from, "replace: {} >= {}", to, from);
+        if to < from {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
diff --git a/src/model/replace.rs b/src/model/replace.rs
index 7986df4..f7d6c63 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -50,7 +50,12 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
-        let content = insert_into(&self.content, pos + self.open_start, fragment, None)?;
+        let content = insert_into(
+            &self.content,
+            pos.saturating_add(self.open_start),
+            fragment,
+            None,
+        )?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -140,7 +145,7 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if rp_from.depth - slice.open_start != rp_to.depth - slice.open_end {
+    } else if Some(rp_from.depth - slice.open_start) != rp_to.depth.checked_sub(slice.open_end) {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 00d8fa2..68b76f7 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -200,7 +200,7 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
     }
 
     pub(crate) fn resolve(doc: &'a S::Node, pos: usize) -> Result<Self, ResolveErr> {
-        if pos > doc.content().unwrap().size() {
+        if pos > doc.content_size() {
             return Err(ResolveErr::RangeError { pos });
         }
         let mut path = vec![];
diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 09aa666..fe8b22e 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -78,7 +78,7 @@ impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {
 
 fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {
     let rp_from = doc.resolve(from)?;
-    let mut dist = to - from;
+    let mut dist = to.saturating_sub(from);
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 2771577a7251e2ef0aa6a3d87bf31fe8461afd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 07/17] fix: reject slices whose open depths exceed the depth
 of their content

Replacing with such a slice indexed past the end of a resolved path and
panicked, or, with empty content, dropped nodes after the range.
---
 src/model/replace.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index f7d6c63..01ea51e 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -45,6 +45,25 @@ impl<S: Schema> Slice<S> {
         }
     }
 
+    /// Whether the content is at least as deep as the open depths on both sides
+    fn open_depths_fit(&self) -> bool {
+        let mut first = self.content.first_child();
+        for _ in 0..self.open_start {
+            match first.and_then(Node::content) {
+                Some(content) => first = content.first_child(),
+                None => return false,
+            }
+        }
+        let mut last = self.content.last_child();
+        for _ in 0..self.open_end {
+            match last.and_then(Node::content) {
+                Some(content) => last = content.last_child(),
+                None => return false,
+            }
+        }
+        true
+    }
+
     pub(crate) fn insert_at(
         &self,
         pos: usize,
@@ -130,6 +149,8 @@ pub enum ReplaceError<S: Schema> {
         /// How many nodes are "open" at the end
         open_end: usize,
     },
+    /// The content of the slice is not as deep as its open depths
+    InvalidOpenDepths,
     /// Could not resolve an index
     Resolve(#[from] ResolveErr),
     /// Cannot join {0:?} onto {1:?}
@@ -152,6 +173,8 @@ pub(crate) fn replace<S: Schema>(
             to_depth: rp_to.depth,
             open_end: slice.open_end,
         })
+    } else if !slice.open_depths_fit() {
+        Err(ReplaceError::InvalidOpenDepths)
     } else {
         replace_outer(rp_from, rp_to, slice, 0)
     }
-- 
2.43.0


From 6d077f90a1d9287475d70bac96433e6761d52277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 08/17] fix: reject positions in the middle of a character

A position between the two UTF-16 halves of a character can't be cut at, so
slicing, replacing or inserting there panicked. Resolving it is an error now.
---
 src/model/fragment.rs |  7 +++++++
 src/model/util.rs     | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index c273f83..2648f63 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -10,6 +10,8 @@ use thiserror::Error;
 pub enum IndexError {
     /// Index is out of bounds {0}
     OutOfBounds(usize),
+    /// Index {0} is in the middle of a character
+    SplitsCharacter(usize),
 }
 
 /// A fragment represents a node's collection of child nodes.
@@ -259,6 +261,11 @@ impl<S: Schema> Fragment<S> {
                                 offset: end,
                             });
                         } else {
+                            if let Some(node) = cur.text_node() {
+                                if !util::is_boundary_utf16(node.text.as_str(), p - cur_pos) {
+                                    return Err(IndexError::SplitsCharacter(p));
+                                }
+                            }
                             return Ok(Index {
                                 index: i,
                                 offset: cur_pos,
diff --git a/src/model/util.rs b/src/model/util.rs
index 197cc86..2ef9d4d 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -33,3 +33,15 @@ pub fn split_at_utf16(text: &str, mut index: usize) -> (&str, &str) {
     let mid = text.len() - iter.as_str().len();
     text.split_at(mid)
 }
+
+/// Whether the UTF-16 index lies between two characters (and not between the halves of one)
+pub fn is_boundary_utf16(text: &str, index: usize) -> bool {
+    let mut offset = 0;
+    for c in text.chars() {
+        if offset >= index {
+            break;
+        }
+        offset += c.len_utf16();
+    }
+    offset <= index
+}
-- 
2.43.0


From f05c7bec508dd47049c8ee8d66a650fa34e9eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 09/17] fix: don't let structure steps overwrite the end of a
 text node

When `from` pointed into the last text node of its parent, the characters
after it were counted as closing tokens, so a structure step could delete
them.
---
 src/transform/replace_step.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index fe8b22e..988dfe0 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -80,6 +80,10 @@ fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<b
     let rp_from = doc.resolve(from)?;
     let mut dist = to.saturating_sub(from);
     let mut depth = rp_from.depth;
+    if dist > 0 && rp_from.text_offset() > 0 {
+        // the rest of the text node `from` points into is content
+        return Ok(true);
+    }
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
         dist -= 1;
-- 
2.43.0


From 5f8f1c1f675a43714d3049f1240ac8578365a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 10/17] fix: check that the gap of a ReplaceAround step fits
 its new parent

insert_into() never passed on the parent, so the content of a closed node of
the slice was not checked after the gap was put into it, and applying the
step resulted in a document with invalid content.
---
 src/model/replace.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 01ea51e..8c9a4f0 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -74,6 +74,7 @@ impl<S: Schema> Slice<S> {
             pos.saturating_add(self.open_start),
             fragment,
             None,
+            (self.open_start, self.open_end),
         )?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
@@ -93,6 +94,7 @@ fn insert_into<S: Schema>(
     dist: usize,
     insert: Fragment<S>,
     parent: Option<&S::Node>,
+    (open_start, open_end): (usize, usize),
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
@@ -111,11 +113,17 @@ fn insert_into<S: Schema>(
         ))
     } else {
         let child = child.unwrap(); // supposed to be safe, because of offset != diff
+        let open_start = if index == 0 { open_start } else { 0 };
+        let is_last = index + 1 == content.child_count();
+        let open_end = if is_last { open_end } else { 0 };
+        // open nodes are only complete, and checked, once they are joined with the document
+        let is_open = open_start > 0 || open_end > 0;
         let inner = insert_into(
             child.content().unwrap_or(Fragment::EMPTY_REF),
             dist - offset - 1,
             insert,
-            None,
+            if is_open { None } else { Some(child) },
+            (open_start.saturating_sub(1), open_end.saturating_sub(1)),
         )?;
         if let Some(i) = inner {
             Ok(Some(
-- 
2.43.0


From fa673247223e8825da7eee825a9ebcd0f8938122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 11/17] fix: join adjacent text when reading markdown

The parser splits text at escapes, entities and unmatched delimiters; each
part became a text node of its own. An empty code block got an empty text
node.
---
 src/markdown/from_markdown.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 45c9936..2a20af1 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -76,6 +76,14 @@ impl MarkdownDeserializer {
 
     fn add_content(&mut self, node: MarkdownNode) -> Result<(), FromMarkdownError> {
         let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
+        if let (Some(MarkdownNode::Text(prev)), MarkdownNode::Text(next)) =
+            (last.0.last_mut(), &node)
+        {
+            if prev.marks == next.marks {
+                prev.text = prev.text.join(&next.text);
+                return Ok(());
+            }
+        }
         last.0.push(node);
         Ok(())
     }
@@ -204,6 +212,9 @@ impl MarkdownDeserializer {
                         if let Attrs::CodeBlock(attrs) = attrs {
                             if let Some(MarkdownNode::Text(t)) = content.last_mut() {
                                 t.text.remove_last_newline();
+                                if t.text.as_str().is_empty() {
+                                    content.pop();
+                                }
                             }
                             let cb = MarkdownNode::CodeBlock(AttrNode {
                                 attrs,
-- 
2.43.0


From 81f8cdf05c2893f99e43f934103cdc1e6da3d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 12/17] fix: read markdown into documents that are valid in the
 schema

Tight list items contained text directly, list items could start with any
block or be empty, empty documents and blockquotes had no content, and
headings could contain hard breaks; none of that is allowed by the schema.
---
 src/markdown/from_markdown.rs | 40 +++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 2a20af1..d7d42ee 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -2,7 +2,7 @@ use super::{
     BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
     MarkdownNode, OrderedListAttrs, MD,
 };
-use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
+use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Node, Text, TextNode};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
 use std::{
@@ -88,6 +88,35 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// Adds the paragraphs that the schema requires but markdown leaves out: around the inline
+    /// content of tight list items, at the start of list items and in otherwise empty containers.
+    fn fill_blocks(content: Vec<MarkdownNode>, paragraph_first: bool) -> Vec<MarkdownNode> {
+        let mut blocks: Vec<MarkdownNode> = Vec::new();
+        let mut inline = Vec::new();
+        let paragraph = |content: Vec<MarkdownNode>| {
+            MarkdownNode::Paragraph(Block {
+                content: Fragment::from(content),
+            })
+        };
+        for node in content {
+            if node.is_inline() {
+                inline.push(node);
+                continue;
+            }
+            if !inline.is_empty() {
+                blocks.push(paragraph(std::mem::take(&mut inline)));
+            }
+            if blocks.is_empty() && paragraph_first && !matches!(node, MarkdownNode::Paragraph(_)) {
+                blocks.push(paragraph(Vec::new()));
+            }
+            blocks.push(node);
+        }
+        if !inline.is_empty() || blocks.is_empty() {
+            blocks.push(paragraph(inline));
+        }
+        blocks
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -187,6 +216,9 @@ impl MarkdownDeserializer {
                     Tag::Heading(_) => {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Heading(attrs) = attrs {
+                            if content.contains(&MarkdownNode::HardBreak) {
+                                return Err(FromMarkdownError::NotSupported("HardBreak in Heading"));
+                            }
                             let h = MarkdownNode::Heading(AttrNode {
                                 attrs,
                                 content: Fragment::from(content),
@@ -200,7 +232,7 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Blockquote = attrs {
                             let b = MarkdownNode::Blockquote(Block {
-                                content: Fragment::from(content),
+                                content: Fragment::from(Self::fill_blocks(content, false)),
                             });
                             self.add_content(b)?;
                         } else {
@@ -251,7 +283,7 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
                             let cb = MarkdownNode::ListItem(Block {
-                                content: Fragment::from(content),
+                                content: Fragment::from(Self::fill_blocks(content, true)),
                             });
                             self.add_content(cb)?;
                         }
@@ -336,7 +368,7 @@ impl MarkdownDeserializer {
         let (content, attrs) = self.pop_stack()?;
         if let Attrs::Doc = attrs {
             Ok(MarkdownNode::Doc(Block {
-                content: Fragment::from(content),
+                content: Fragment::from(Self::fill_blocks(content, false)),
             }))
         } else {
             Err(FromMarkdownError::MisplacedEndTag("Doc", attrs))
-- 
2.43.0


From a93f19ae47a0494483bd99d438bda22701d8cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 13/17] fix: keep alternative text and title of images in
 markdown

Reading failed for every image with an alternative text and used the title
in its place otherwise; writing dropped the alternative text and put the
source URL in place of the title.
---
 src/markdown/from_markdown.rs | 11 +++++++----
 src/markdown/to_markdown.rs   | 21 ++++++++++++++-------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index d7d42ee..ca87474 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -196,7 +196,7 @@ impl MarkdownDeserializer {
                     Tag::Image(_, src, title) => {
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
-                            alt: title.to_string(),
+                            alt: String::new(),
                             title: title.to_string(),
                         }));
                     }
@@ -320,9 +320,12 @@ impl MarkdownDeserializer {
                     }),
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
-                        if let Attrs::Image(attrs) = attrs {
-                            if content.len() > 0 {
-                                return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                        if let Attrs::Image(mut attrs) = attrs {
+                            for node in content {
+                                if !node.is_text() {
+                                    return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                                }
+                                attrs.alt.push_str(&node.text_content());
                             }
                             let cb = MarkdownNode::Image(Leaf { attrs });
                             self.add_content(cb)?;
diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index ae83493..744cfd4 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -183,13 +183,20 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-                    self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
-                        Tag::Image(
-                            LinkType::Inline,
-                            CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.src.as_str()),
-                        )
-                    })
+                    let event =
+                        self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
+                            Tag::Image(
+                                LinkType::Inline,
+                                CowStr::Borrowed(attrs.src.as_str()),
+                                CowStr::Borrowed(attrs.title.as_str()),
+                            )
+                        });
+                    if matches!(&event, Some(Event::Start(Tag::Image(..)))) && !attrs.alt.is_empty()
+                    {
+                        self.stack
+                            .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                    }
+                    event
                 }
             }
         } else {
-- 
2.43.0


From 3169265b6a0158f7f030fd0166f3719945d2a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 14/17] fix: close marks that have ended when writing markdown

Only the innermost open mark was compared with the marks of the next text,
so an outer mark could go on over text that does not have it. A mark was
also kept open over a hard break, where its end is not recognized.
---
 src/markdown/to_markdown.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 744cfd4..8fcc428 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -138,7 +138,8 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                 }
                 MarkdownNode::Text(text_node) => {
                     if let Some(last) = self.marks.last().map(|n| *n) {
-                        if !text_node.marks.contains(last) {
+                        // tags are nested: the last one has to go for any other one to be closed
+                        if self.marks.iter().any(|m| !text_node.marks.contains(m)) {
                             self.inner.push((node, index));
                             self.marks.pop();
                             return Some(Event::End(mark_tag(last)));
@@ -180,6 +181,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                 MarkdownNode::HorizontalRule => Some(Event::Rule),
                 MarkdownNode::HardBreak => {
                     // todo: inline marks
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-- 
2.43.0


From b7171a45d47056b624425f1a2fde0f8ded79fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 15/17] fix: restore the enclosing marks when an emphasis ends
 in markdown

The end of a nested emphasis of the same kind also ended the outer one for
the rest of its text.
---
 src/markdown/from_markdown.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index ca87474..916cabb 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -50,6 +50,7 @@ pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
     mark_set: MarkSet<MD>,
+    outer_marks: Vec<MarkSet<MD>>,
 }
 
 impl MarkdownDeserializer {
@@ -65,6 +66,15 @@ impl MarkdownDeserializer {
         Ok(())
     }*/
 
+    fn open_mark(&mut self, mark: MarkdownMark) {
+        self.outer_marks.push(self.mark_set.clone());
+        self.mark_set.add(&mark);
+    }
+
+    fn close_mark(&mut self) {
+        self.mark_set = self.outer_marks.pop().unwrap_or_default();
+    }
+
     fn push_stack(&mut self, attrs: Attrs) {
         self.stack.push((Vec::new(), attrs));
     }
@@ -177,16 +187,16 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.add(&MarkdownMark::Em);
+                        self.open_mark(MarkdownMark::Em);
                     }
                     Tag::Strong => {
-                        self.mark_set.add(&MarkdownMark::Strong);
+                        self.open_mark(MarkdownMark::Strong);
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
                     Tag::Link(_, href, title) => {
-                        self.mark_set.add(&MarkdownMark::Link {
+                        self.open_mark(MarkdownMark::Link {
                             attrs: LinkAttrs {
                                 href: href.to_string(),
                                 title: title.to_string(),
@@ -304,20 +314,15 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.remove(&MarkdownMark::Em);
+                        self.close_mark();
                     }
                     Tag::Strong => {
-                        self.mark_set.remove(&MarkdownMark::Strong);
+                        self.close_mark();
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
-                    Tag::Link(_, href, title) => self.mark_set.remove(&MarkdownMark::Link {
-                        attrs: LinkAttrs {
-                            href: href.to_string(),
-                            title: title.to_string(),
-                        },
-                    }),
+                    Tag::Link(_, _, _) => self.close_mark(),
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Image(mut attrs) = attrs {
-- 
2.43.0


From c366a9dbfc341d2f2306ebcb8ee6f2f5b6a864fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 16/17] fix: reading markdown makes no empty text nodes

---
 src/markdown/from_markdown.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 916cabb..d354e39 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -85,6 +85,10 @@ impl MarkdownDeserializer {
     }
 
     fn add_content(&mut self, node: MarkdownNode) -> Result<(), FromMarkdownError> {
+        if matches!(&node, MarkdownNode::Text(t) if t.text.as_str().is_empty()) {
+            // there are no empty text nodes (e.g. for an empty code span)
+            return Ok(());
+        }
         let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
         if let (Some(MarkdownNode::Text(prev)), MarkdownNode::Text(next)) =
             (last.0.last_mut(), &node)
-- 
2.43.0


From 1fc83194d92deaa922f328c140bdb5197b6c037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 17/17] fix: escape every special character when writing
 markdown

---
 src/markdown/to_markdown.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 8fcc428..d8720b0 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -2,7 +2,7 @@ use super::{MarkdownMark, MarkdownNode, MD};
 use crate::model::{AttrNode, Block, Fragment, Leaf, Node};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, CowStr, Event, InlineStr, LinkType, Tag};
-use pulldown_cmark_to_cmark::cmark;
+use pulldown_cmark_to_cmark::{cmark, SPECIAL_CHARACTERS};
 use thiserror::Error;
 
 /// Possible error when generating markdown
@@ -71,6 +71,20 @@ impl<'a> MarkdownSerializer<'a> {
         }
     }
 
+    /// `cmark` escapes special characters only at the start of a text event, so every one of them
+    /// has to begin an event of its own
+    fn text(&mut self, text: &'a str) -> Event<'a> {
+        let mut rest = text;
+        while let Some(at) = rest.rfind(|c| SPECIAL_CHARACTERS.iter().any(|s| c == *s as char)) {
+            if at == 0 {
+                break;
+            }
+            self.stack.push(Event::Text(CowStr::Borrowed(&rest[at..])));
+            rest = &rest[..at];
+        }
+        Event::Text(CowStr::Borrowed(rest))
+    }
+
     fn process_attr_node<A, F>(
         &mut self,
         index: usize,
@@ -158,7 +172,7 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     if is_code {
                         Some(Event::Code(CowStr::Borrowed(text_node.text.as_str())))
                     } else {
-                        Some(Event::Text(CowStr::Borrowed(text_node.text.as_str())))
+                        Some(self.text(text_node.text.as_str()))
                     }
                 }
                 MarkdownNode::Blockquote(Block { content }) => {
@@ -198,8 +212,8 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                         });
                     if matches!(&event, Some(Event::Start(Tag::Image(..)))) && !attrs.alt.is_empty()
                     {
-                        self.stack
-                            .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                        let alt = self.text(attrs.alt.as_str());
+                        self.stack.push(alt);
                     }
                     event
                 }
-- 
2.43.0

