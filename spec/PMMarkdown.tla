----------------------------- MODULE PMMarkdown -----------------------------
(* The document a CommonMark text describes, built from the events the parser *)
(* reports: [e, g, x, u, s] with the kind, tag, tag arguments, text as units  *)
(* and text as a string.                                                      *)
EXTENDS PMMarks

Attr(name, kind, value) == <<name, kind, value>>
NewLine == "u000a"
Para(cs) == MkNode("paragraph", <<>>, <<>>, <<>>, cs)

\* append a node; texts with equal marks are joined, empty ones are nothing
AddNode(cs, n) ==
  IF n.t = "text" /\ n.s = <<>> THEN cs
  ELSE IF n.t = "text" /\ cs # <<>> /\ cs[Len(cs)].t = "text" /\ cs[Len(cs)].m = n.m
  THEN [cs EXCEPT ![Len(cs)].s = @ \o n.s]
  ELSE Append(cs, n)

(* The paragraphs that markdown leaves out and the schema needs: around       *)
(* inline content among blocks, at the start of list items, and in otherwise  *)
(* empty containers.                                                          *)
FillBlocks(cs, paragraphFirst) ==
  LET flush(st) == IF st.inline = <<>> THEN st
                   ELSE [st EXCEPT !.blocks = Append(@, Para(st.inline)), !.inline = <<>>]
      put(st, n) ==
        IF IsInlineType(n.t) THEN [st EXCEPT !.inline = Append(@, n)]
        ELSE LET f == flush(st)
                 g == IF f.blocks = <<>> /\ paragraphFirst /\ n.t # "paragraph"
                      THEN [f EXCEPT !.blocks = << Para(<<>>) >>] ELSE f
             IN [g EXCEPT !.blocks = Append(@, n)]
      all == flush(FoldLeft(put, [blocks |-> <<>>, inline |-> <<>>], cs))
  IN IF all.blocks = <<>> THEN << Para(<<>>) >> ELSE all.blocks

\* code blocks end with a line break that is not part of the code
CodeContent(cs) ==
  IF cs = <<>> \/ cs[Len(cs)].s[Len(cs[Len(cs)].s)] # NewLine THEN cs
  ELSE LET l == cs[Len(cs)]
           s == SubSeq(l.s, 1, Len(l.s) - 1)
       IN IF s = <<>> THEN SubSeq(cs, 1, Len(cs) - 1) ELSE [cs EXCEPT ![Len(cs)].s = s]

BlockTags == {"paragraph", "heading", "blockquote", "code_block", "bullet_list", "ordered_list", "list_item"}
MarkTags == {"em", "strong", "link"}

AttrsOfTag(g, x) ==
  CASE g = "heading"      -> << Attr("level", "n", x[1]) >>
    [] g = "code_block"   -> << Attr("params", "s", x[1]) >>
    [] g = "bullet_list"  -> << Attr("tight", "b", "false") >>
    [] g = "ordered_list" -> << Attr("order", "n", x[1]), Attr("tight", "b", "false") >>
    [] OTHER              -> <<>>

MarkOfTag(g, x) ==
  [k |-> g, a |-> IF g = "link" THEN << Attr("href", "s", x[1]), Attr("title", "s", x[2]) >> ELSE <<>>]

(* The state of the reader: a stack of open nodes with their content (and the *)
(* plain text directly in them), the marks around the current text, outermost *)
(* first, and whether something unsupported was met.                          *)
Frame(g, x) == [g |-> g, x |-> x, c |-> <<>>, raw |-> ""]
StartState == [stack |-> << Frame("doc", <<>>) >>, marks |-> <<>>, ok |-> TRUE]

Top(st) == st.stack[Len(st.stack)]
Put(st, n, raw) ==
  [st EXCEPT !.stack[Len(st.stack)].c = AddNode(@, n), !.stack[Len(st.stack)].raw = @ \o raw]
Push(st, g, x) == [st EXCEPT !.stack = Append(@, Frame(g, x))]
Pop(st) == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Bad(st) == [st EXCEPT !.ok = FALSE]

CurrentMarks(st) == FoldLeft(AddMarkTo, <<>>, st.marks)

CloseFrame(st) ==
  LET f == Top(st)
      node(c) == MkNode(f.g, AttrsOfTag(f.g, f.x), <<>>, <<>>, c)
  IN CASE f.g = "heading" ->
            IF \E i \in 1..Len(f.c) : f.c[i].t = "hard_break" THEN Bad(st)
            ELSE Put(Pop(st), node(f.c), "")
       [] f.g = "blockquote" -> Put(Pop(st), node(FillBlocks(f.c, FALSE)), "")
       [] f.g = "list_item"  -> Put(Pop(st), node(FillBlocks(f.c, TRUE)), "")
       [] f.g = "code_block" -> Put(Pop(st), node(CodeContent(f.c)), "")
       [] f.g = "image" ->
            IF \E i \in 1..Len(f.c) : f.c[i].t # "text" THEN Bad(st)
            ELSE Put(Pop(st),
                     MkNode("image", << Attr("alt", "s", f.raw), Attr("src", "s", f.x[1]),
                                        Attr("title", "s", f.x[2]) >>, <<>>, <<>>, <<>>), "")
       [] OTHER -> Put(Pop(st), node(f.c), "")

ReadEvent(st, ev) ==
  IF ~st.ok THEN st
  ELSE CASE ev.e = "start" ->
              IF ev.g \in BlockTags \cup {"image"} THEN Push(st, ev.g, ev.x)
              ELSE IF ev.g \in MarkTags THEN [st EXCEPT !.marks = Append(@, MarkOfTag(ev.g, ev.x))]
              ELSE Bad(st)
         [] ev.e = "end" ->
              IF ev.g \in BlockTags \cup {"image"} THEN CloseFrame(st)
              ELSE [st EXCEPT !.marks = SubSeq(@, 1, Len(@) - 1)]
         [] ev.e = "text" -> Put(st, MkNode("text", <<>>, ev.u, CurrentMarks(st), <<>>), ev.s)
         [] ev.e = "code" ->
              Put(st, MkNode("text", <<>>, ev.u, AddMarkTo(CurrentMarks(st), [k |-> "code", a |-> <<>>]), <<>>), ev.s)
         [] ev.e = "hard" -> Put(st, MkNode("hard_break", <<>>, <<>>, <<>>, <<>>), "")
         [] ev.e = "rule" -> Put(st, MkNode("horizontal_rule", <<>>, <<>>, <<>>, <<>>), "")
         [] OTHER -> Bad(st)

\* [ok, doc]
FromEvents(evs) ==
  LET st == FoldLeft(ReadEvent, StartState, evs)
  IN [ok  |-> st.ok,
      doc |-> IF st.ok THEN MkNode("doc", <<>>, <<>>, <<>>, FillBlocks(Top(st).c, FALSE))
              ELSE MkNode("doc", <<>>, <<>>, <<>>, <<>>)]
=============================================================================
