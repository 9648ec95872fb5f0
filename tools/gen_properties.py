#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Reported sizes count the position tokens",
  "For every node, fragment and text the library hands out - parsed from JSON or markdown, constructed, cut, appended, sliced, replaced or produced by a step - the reported sizes equal the number of position tokens it really holds: the UTF-16 length for text, one for any other leaf, and two plus the sum of its children for every other node. Child counts, the leaf/text/block/inline classification and first/last/indexed child access agree with the same tree.",
  ["inputs", "histories"],
  "All document trees over the markdown schema, including text outside the basic multilingual plane and trees that are not schema-valid, however many operations produced them.",
  "Sizes are cached in fragments and texts and updated incrementally by each operation; the tests look at three hand-written nodes and never at the cached size of a computed result, where a wrong cache only shows up in a later operation.",
  ["src/model/node.rs", "src/model/fragment.rs"],
  [("node_size / content_size", "src/model/node.rs"), ("Fragment::size cache in append, cut, replace_child, From<Vec>", "src/model/fragment.rs"), ("Text::len_utf16 cache in From<String>, join, remove_last_newline", "src/model/node.rs")],
  [("Fragment.size", "cached sum of child sizes", "src/model/fragment.rs"), ("Text.len_utf16", "cached UTF-16 length", "src/model/node.rs")],
  ["Node::node_size", "Node::content_size", "Fragment::size", "Text::len_utf16", "Node::child_count"])

prop("C02", "Resolving a position agrees with the token sequence",
  "Every position from 0 to the content size of a node resolves, and the result reports exactly what counting tokens gives: the enclosing nodes from the root down, the child index (and the index after) at each level, the absolute start and end of each and the positions before and after it, the offset into a text node, the (possibly cut) nodes directly before and after, and the depth shared with any other position. A position beyond the content, or between the two UTF-16 halves of a character, is an error.",
  ["inputs"],
  "All nodes used as root (documents, containers, textblocks, leaves) and all positions, in and out of range.",
  "One test resolves the 13 positions of one document; nothing covers deep nesting, leaves, several text nodes, empty nodes, characters outside the BMP, or the index_after and shared_depth queries.",
  ["src/model/resolved_pos.rs", "src/model/fragment.rs"],
  [("ResolvedPos::resolve", "src/model/resolved_pos.rs"), ("Fragment::find_index", "src/model/fragment.rs")],
  [("path", "enclosing nodes with index and offset", "src/model/resolved_pos.rs")],
  ["Node::resolve", "ResolvedPos accessors"])

prop("C03", "A slice holds exactly the tokens of its range",
  "Slicing a node between two positions gives exactly the tokens between them, wrapped in the nodes that the range cuts open below the deepest node containing both ends (below the root if parents are included), with the two open depths counting the nodes cut open on each side; equal ends give the empty slice. Unbounded and inclusive ranges mean the node's content bounds and end plus one, and ends that do not resolve are errors. Putting a slice back in place of the range it was taken from gives back the same document.",
  ["inputs"],
  "All documents, all pairs of positions from <= to, all range forms, with and without parents.",
  "The tests only use slices as inputs of replacements, always with both bounds given; the unbounded form never worked and no test noticed.",
  ["src/model/node.rs", "src/model/fragment.rs", "src/model/replace.rs"],
  [("Node::slice", "src/model/node.rs"), ("Fragment::cut / Node::cut", "src/model/fragment.rs, src/model/node.rs")],
  [("Slice.open_start, Slice.open_end", "nodes cut open on either side", "src/model/replace.rs")],
  ["Node::slice"])

prop("C04", "Replace splices exactly, and succeeds exactly when the slice fits",
  "An accepted replacement of a range by a slice has exactly the tokens before the range, then the slice's tokens without its open ends, then the tokens after the range, so that nodes open on both sides of a seam become one node with the left one's type and attributes, and text with equal marks meeting at a seam becomes one text node. It is accepted if and only if both ends resolve in order, the slice is no deeper than the insertion point, its open depths agree at both ends and fit its own content, the nodes to be joined have compatible content, and every node closed at a seam has valid content; otherwise an error that states which of these failed is returned.",
  ["inputs"],
  "All documents, ranges and slices (well-formed or not), over every node type of the markdown schema.",
  "About 20 hand-picked replacements and 6 rejections are tested; acceptance is a condition over every combination of depths and node types on both seams, and preservation has to hold for everything outside the range.",
  ["src/model/replace.rs", "src/model/node.rs", "src/model/resolved_pos.rs"],
  [("replace, replace_outer, replace_two_way, replace_three_way, add_range, add_node, close", "src/model/replace.rs")],
  [("rp_from, rp_to, rp_start, rp_end", "resolved ends in document and slice", "src/model/replace.rs")],
  ["Node::replace", "ReplaceStep::apply"])

prop("C05", "Accepted steps keep a valid document valid",
  "Applying any step to a schema-valid document gives either an error or a document in which every node, at every level, again has content and marks that the schema allows, provided that the completely enclosed nodes of the step's slice, other than the one that receives the gap of a replace-around step, are valid themselves.",
  ["inputs", "histories"],
  "All valid documents, all four kinds of steps with arbitrary positions and flags, and slices whose closed nodes are valid (open ends arbitrary); also along whole step histories.",
  "Two rejections by content are tested, both for plain replacement; that gap content put inside a closed wrapper and marked text pasted into code must be checked as well was missed.",
  ["src/model/replace.rs", "src/transform/replace_step.rs", "src/transform/mark_step.rs", "src/markdown/schema.rs", "src/markdown/content.rs"],
  [("close / valid_content", "src/model/replace.rs, src/markdown/schema.rs"), ("insert_into / can_replace", "src/model/replace.rs, src/model/node.rs"), ("allows_mark_type", "src/transform/mark_step.rs")],
  [], ["Step::apply"])

prop("C06", "Steps keep text in normal form",
  "If neither the document nor the step's slice contains an empty text node or two adjacent text nodes with equal marks, then neither does the result of any accepted step.",
  ["inputs", "histories"],
  "All normal-form documents and slices and all four kinds of steps; also along whole step histories.",
  "The expected documents in the tests happen to be in normal form for edits inside one text run; mark steps that make neighbours equal and gap insertions are not covered.",
  ["src/model/replace.rs", "src/model/fragment.rs", "src/transform/mark_step.rs"],
  [("add_node", "src/model/replace.rs"), ("Fragment::append", "src/model/fragment.rs"), ("map_fragment", "src/transform/mark_step.rs")],
  [], ["Step::apply"])

prop("C07", "Mark steps change exactly the marks of the text in range",
  "Adding a mark over a valid range of a valid document always succeeds and gives exactly the text in the range whose parent allows that mark this mark in addition (in place of a mark of the same type), and removing a mark takes exactly this mark, with these attributes, from exactly the text in the range. All other marks, text, nodes, attributes and positions stay as they were, and a range that is inverted or out of bounds is an error.",
  ["inputs"],
  "All valid documents, all ranges crossing any number of nodes, all marks including links that differ only in attributes, and texts already carrying any set of marks.",
  "A single test adds one mark to unmarked text in one paragraph; existing marks were lost and nothing noticed.",
  ["src/transform/mark_step.rs", "src/model/marks.rs", "src/markdown/mod.rs"],
  [("AddMarkStep::apply, RemoveMarkStep::apply", "src/transform/mark_step.rs"), ("add_to_set / remove_from_set", "src/model/marks.rs")],
  [], ["AddMarkStep::apply", "RemoveMarkStep::apply"])

prop("C08", "Mark sets stay canonical",
  "After any sequence of additions and removals, through the set's own methods or a mark's add-to-set and remove-from-set, a mark set holds at most one mark per type, always in the same order of types, so that sets with the same marks are equal whatever the history. Adding replaces a mark of the same type and leaves all others, removing a mark that is not in the set (including one with other attributes) changes nothing, membership means the exact mark, and parsing a list with two marks of one type fails.",
  ["inputs", "histories"],
  "All sequences of operations over all mark values, and all lists given to the parser, in any order.",
  "No test touches mark sets with more than one mark.",
  ["src/model/marks.rs"],
  [("binary search by type in add, remove, add_to_set, remove_from_set; sort and dedup in try_from", "src/model/marks.rs")],
  [("MarkSet.content", "marks sorted by type", "src/model/marks.rs")],
  ["MarkSet::add", "MarkSet::remove", "MarkSet::contains", "Mark::add_to_set", "Mark::remove_from_set", "Mark::into_set"])

prop("C09", "Structure steps never overwrite content",
  "A replace step flagged as structural succeeds only if the replaced range consists of closing tokens followed by opening tokens and nothing else, and a structural replace-around step only if that holds on both sides of its gap; otherwise it fails with the error for overwriting content. Apart from this check the flag changes nothing about the result.",
  ["inputs"],
  "All documents and all ranges (ends inside text, at any depth, inverted or out of range), both step kinds, with and without the flag.",
  "No test applies a structural step.",
  ["src/transform/replace_step.rs"],
  [("content_between", "src/transform/replace_step.rs")],
  [], ["ReplaceStep::apply", "ReplaceAroundStep::apply"])

prop("C10", "Replace-around keeps its gap and replaces only what surrounds it",
  "An accepted replace-around step has exactly the tokens before the range, the slice's tokens up to the insertion offset, the tokens of the gap unchanged, the rest of the slice's tokens and the tokens after the range. It is accepted if and only if the gap is flat (cuts no node open), the insertion offset lies in the slice, the closed node of the slice that receives the gap can hold it, and replacing the range by the filled slice would be accepted; a gap that is not flat or does not fit is reported as such.",
  ["inputs"],
  "All documents, ranges, gaps, slices with any open depths and insertion offsets, including inconsistent ones.",
  "No test applies a replace-around step.",
  ["src/transform/replace_step.rs", "src/model/replace.rs"],
  [("ReplaceAroundStep::apply", "src/transform/replace_step.rs"), ("Slice::insert_at / insert_into", "src/model/replace.rs")],
  [], ["ReplaceAroundStep::apply"])

prop("C11", "Any decodable step on any document returns, with a result or an error",
  "For every document and every step that can be decoded from JSON or built through the public types - including inverted or huge positions, open depths deeper than the content, insertion offsets outside the slice, positions inside a character, invalid or empty nodes, and roots that are not documents - applying the step terminates and returns a document or an error; it never panics.",
  ["inputs", "fault_sequences"],
  "All documents nested up to the JSON parser's depth limit (128 levels) and all values of every numeric field up to 2^64-1, in a build with overflow checks.",
  "The tests only apply well-formed steps; an authority is sent steps by clients it does not control.",
  ["src/transform/replace_step.rs", "src/transform/mark_step.rs", "src/model/replace.rs", "src/model/node.rs", "src/model/resolved_pos.rs", "src/model/fragment.rs"],
  [("range and depth checks in Node::replace, replace, resolve, find_index, insert_at, content_between", "src/model, src/transform")],
  [], ["Step::apply"])

prop("C12", "Replaying a step log reproduces every version of the document",
  "Every replica that starts from the same document and applies an authority's accepted steps in order, directly or after the document and the steps were sent as JSON, at any moment holds exactly the authority's document at that version, and that document is the one obtained by applying the steps' defined effects one after the other. A step that is rejected is rejected by every replica at that version and changes nothing.",
  ["histories", "schedules"],
  "All histories of submitted steps (stale, conflicting, malformed or accepted) and all interleavings of submissions and deliveries between an authority and its clients.",
  "Tests apply at most one step; a wrong cached size or an unnormalized result only matters for the steps after it.",
  ["src/transform/mod.rs", "src/transform/step.rs", "src/model/replace.rs"],
  [("Step::apply as a pure function of document and step", "src/transform/mod.rs"), ("serde representation of steps and nodes", "src/transform, src/model, src/markdown")],
  [("document at a version", "result of the accepted steps so far", "caller")],
  ["Step::apply", "serde of Step and MarkdownNode"])

prop("C13", "The JSON form is lossless and is ProseMirror's",
  "Encoding any document, slice, mark or step gives ProseMirror's JSON (node type names with all of their attributes, content lists, marks, step types, camel-case step fields) and decoding that JSON gives back an equal value. Decoding also accepts what ProseMirror leaves out or sets to null (missing content, marks, slices, open depths, structure flag; null or missing alt and title) with the documented defaults, and rejects unknown node, mark and step types and missing required fields.",
  ["inputs"],
  "All documents, slices and steps over the markdown schema with arbitrary strings and numbers in text and attributes.",
  "Four small JSON snippets are decoded in the tests, and nothing is ever encoded.",
  ["src/markdown/mod.rs", "src/markdown/attrs.rs", "src/de.rs", "src/model/schema.rs", "src/model/replace.rs", "src/transform/mod.rs", "src/transform/replace_step.rs", "src/transform/mark_step.rs"],
  [("serde derives and attributes", "src/markdown, src/model, src/transform"), ("deserialize_or_default", "src/de.rs")],
  [], ["serde_json::to_string", "serde_json::from_str"])

prop("C14", "Content matching decides the schema's content expressions",
  "A node type accepts a sequence of children exactly if the sequence of their types matches its content expression in the markdown schema and no child carries a mark the type forbids; matching step by step succeeds exactly on the prefixes of such sequences and reports a valid end exactly on complete ones. Replacing a child range by (part of) a fragment is reported possible exactly if the resulting sequence of children matches and the inserted children's marks are allowed, and two types are compatible exactly if they are equal or can start with a common child type.",
  ["inputs"],
  "All node types, all sequences of child types (with and without marks), all child ranges and sub-ranges of the replacement.",
  "Two rejected replacements exercise two expressions; the automaton has 9 states and 12 input types and can_replace is not tested at all.",
  ["src/markdown/content.rs", "src/markdown/schema.rs", "src/model/content.rs", "src/model/node.rs"],
  [("MarkdownContentMatch", "src/markdown/content.rs"), ("valid_content, allow_marks, compatible_content", "src/markdown/schema.rs"), ("content_match_at, can_replace", "src/model/node.rs")],
  [], ["NodeType::valid_content", "ContentMatch", "Node::can_replace", "NodeType::compatible_content"])

prop("C15", "Traversal and text extraction cover exactly the range",
  "Visiting the nodes between two positions calls back exactly the nodes that overlap the range, parents before children in document order, each with its absolute start position, and skips the descendants of a node exactly if the callback declined it. Text extraction over a range yields exactly the text in it in document order, the given leaf text for every non-text leaf, and the given separator at the start of each non-leaf block that follows text or a leaf since the last separator; the text content of a node is the concatenation of all its text.",
  ["inputs"],
  "All documents nested to any depth, all ranges on character boundaries, all callbacks, with and without separator and leaf text.",
  "text_content is only called on text nodes by the tests; on every nested document it panicked.",
  ["src/model/fragment.rs", "src/model/node.rs", "src/model/util.rs"],
  [("nodes_between, text_between", "src/model/fragment.rs"), ("text_content", "src/model/node.rs"), ("split_at_utf16", "src/model/util.rs")],
  [], ["Fragment::nodes_between", "Fragment::text_between", "Node::text_content"])

prop("C16", "Cutting, appending and replacing children conserve content",
  "Cutting a fragment or node keeps exactly the tokens in the range together with the (possibly cut) nodes around them, with their types, attributes and marks; appending concatenates, joining only two texts with equal marks that meet; replacing a child exchanges just that child. Cutting a normal-form fragment at a position directly in it (between its children or inside one of its texts) and appending the two halves gives back an equal fragment.",
  ["inputs"],
  "All fragments and nodes, all ranges on character boundaries, all child indices.",
  "These are only run indirectly, by the replacements in the tests.",
  ["src/model/fragment.rs", "src/model/node.rs", "src/model/util.rs", "src/model/schema.rs"],
  [("cut, append, replace_child", "src/model/fragment.rs"), ("Node::cut, copy, mark", "src/model/node.rs, src/markdown/mod.rs"), ("split_at_utf16", "src/model/util.rs")],
  [], ["Fragment::cut", "Fragment::append", "Fragment::replace_child", "Node::cut", "Node::copy", "Node::mark"])

prop("C17", "Reading markdown gives the valid document the text describes",
  "Reading a markdown text gives either an error, if it uses a construct that is not supported (HTML, soft line breaks, a hard break in a heading, nodes other than text inside an image), or a schema-valid document in normal form with exactly the blocks, text, marks and attributes the CommonMark parser reports, in order: text carries all enclosing emphasis, strong, link and code marks, and paragraphs are added only where markdown leaves them out and the schema needs them.",
  ["inputs"],
  "All markdown texts (as parsed by the CommonMark parser with default options).",
  "No test calls the reader at all; the one test in its module only looks at the parser's output.",
  ["src/markdown/from_markdown.rs"],
  [("MarkdownDeserializer::deserialize", "src/markdown/from_markdown.rs")],
  [("stack", "open containers with the content so far", "src/markdown/from_markdown.rs"), ("mark_set", "marks of the next text", "src/markdown/from_markdown.rs")],
  ["from_markdown"])

prop("C18", "Writing markdown and parsing it again gives the same document",
  "For every valid normal-form document that markdown can express, the text written for it, parsed as CommonMark, describes the same document: the same blocks in the same nesting with the same attributes, and the same text carrying exactly the same marks.",
  ["inputs"],
  "All valid normal-form documents that markdown can express: lists are not tight and never follow a list of the same kind; no paragraph or heading is empty; no line begins or ends with a blank or begins with - + = ~ or a number with . or ); text has no ampersands, closing brackets or control characters, code marks no backticks and no outer blanks and do not touch each other; marks start after a blank or at a beginning and end before a blank or at an end, and at one place only those end that were started last; attributes are plain words. Nested and overlapping marks, links, images, hard breaks, code blocks, lists and quotes occur in any combination, and text may have any other characters, those with a meaning in markdown included.",
  "One document with a single marked text is written in the tests; overlapping marks, links, images, lists, hard breaks and rules never are, and nothing is read back.",
  ["src/markdown/to_markdown.rs"],
  [("MarkdownSerializer: stack of open nodes and open marks", "src/markdown/to_markdown.rs")],
  [("marks", "marks that are currently open", "src/markdown/to_markdown.rs"), ("inner", "nodes that are currently open", "src/markdown/to_markdown.rs")],
  ["to_markdown"])

prop("C19", "Every accepted step can be undone",
  "If any step - a replacement by a slice in normal form, a replace-around step, or adding or removing a mark - is accepted in a valid normal-form document, then replacing the changed range of the result by the slice that the original document had in the step's range is accepted too and gives back exactly the original document.",
  ["inputs", "histories"],
  "All valid normal-form documents and all steps of the four kinds that are accepted, with normal-form slices; also several in a row undone in reverse order.",
  "No test applies a second step to the result of a first one.",
  ["src/model/replace.rs", "src/model/node.rs", "src/transform/replace_step.rs", "src/transform/mark_step.rs"],
  [("Node::slice", "src/model/node.rs"), ("Node::replace", "src/model/replace.rs"), ("Step::apply", "src/transform/mod.rs")],
  [], ["Node::replace", "Node::slice", "Step::apply"])

prop("C20", "Constructors hold what they are given, and equality is structural",
  "The helper functions and the conversions to fragments, texts and nodes make exactly the node of their name with the given children, text, level and parameters and the schema's defaults elsewhere, with the size that its tokens have. Two nodes, fragments, slices, texts or steps are equal exactly if they have the same types, attributes, marks, text and children (and open depths, positions and flags), no matter by which operations - parsing, joining, cutting and appending, replacing a child - each of them came about.",
  ["inputs", "histories"],
  "All nodes, fragments, slices, texts and steps, valid or not, and all ways the public operations obtain equal ones.",
  "Tests compare results with expected values using this very equality, built by these very helpers; values that differ in one attribute or mark, or equal ones that came about differently, are never compared.",
  ["src/markdown/helper.rs", "src/markdown/mod.rs", "src/model/fragment.rs", "src/model/node.rs", "src/model/replace.rs", "src/transform/mod.rs"],
  [("h, p, ul, li, ...", "src/markdown/helper.rs"), ("From conversions", "src/model/fragment.rs, src/model/node.rs, src/markdown/mod.rs"), ("PartialEq", "src/markdown/mod.rs, src/model/fragment.rs, src/model/node.rs")],
  [], ["markdown::helper", "Fragment::from", "Text::from", "PartialEq::eq"])

prop("C21", "Edits apart from each other commute",
  "Two replace or replace-around steps of which one changes only what is behind the range of the other, or only what is in the gap that the other one keeps, give the same document in either order, if the positions of the one applied second are moved by as many tokens as the first one inserts or removes before them and both orders are accepted. Two mark steps with different mark types give the same valid document in either order with unchanged positions.",
  ["inputs", "histories"],
  "All normal-form documents (valid ones for mark steps) and pairs of steps with normal-form slices.",
  "No test applies two steps; that a step leaves all positions outside of its range alone except for the change in length is what collaborative editing and position mapping rely on.",
  ["src/model/replace.rs", "src/transform/replace_step.rs", "src/transform/mark_step.rs", "src/transform/step.rs"],
  [("replace", "src/model/replace.rs"), ("ReplaceStep, ReplaceAroundStep", "src/transform/replace_step.rs"), ("AddMarkStep, RemoveMarkStep", "src/transform/mark_step.rs")],
  [], ["Step::apply"])

prop("C22", "Any document can be written as markdown",
  "Writing a document as markdown always gives a text, the same one every time, and reading that text again gives a document or an error: no document, whether or not markdown can express it and whether or not it is valid, makes the writer fail or the writer or the reader panic or not return.",
  ["inputs"],
  "All documents, valid or not, with any texts, attributes and combinations of marks, nested to any depth the stack allows.",
  "One document is written in the tests.",
  ["src/markdown/to_markdown.rs", "src/markdown/from_markdown.rs"],
  [("MarkdownSerializer", "src/markdown/to_markdown.rs"), ("MarkdownDeserializer", "src/markdown/from_markdown.rs")],
  [], ["to_markdown", "from_markdown"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
