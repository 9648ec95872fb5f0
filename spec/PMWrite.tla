------------------------------- MODULE PMWrite --------------------------------
(* Writing markdown: the events the writer hands to the CommonMark formatter. *)
(* Marks become tags that are opened and closed as the text goes along.       *)
EXTENDS PMMarkdown, PMExpress

Ev(e, g, x, u) == [e |-> e, g |-> g, x |-> x, u |-> u, s |-> ""]
StartOf_(m) == Ev("start", m.k, [i \in 1..Len(m.a) |-> m.a[i][3]], <<>>)
EndOf_(m)   == Ev("end", m.k, [i \in 1..Len(m.a) |-> m.a[i][3]], <<>>)
TagArgs(n) ==
  CASE n.t = "heading"      -> << n.a[1][3] >>
    [] n.t = "code_block"   -> << n.a[1][3] >>
    [] n.t = "ordered_list" -> << n.a[1][3] >>
    [] OTHER                -> <<>>

\* closing the innermost tags until no mark that has ended is open
Closing(open, ms) ==
  LET kept == Kept(open, ms)
  IN [i \in 1..(Len(open) - Len(kept)) |-> EndOf_(open[Len(open) + 1 - i])]
Opening(new) == [i \in 1..Len(new) |-> StartOf_(new[i])]

\* an inline node; st is [open, out]
WriteInline(st, n) ==
  CASE n.t = "text" ->
         LET ms == Around(n)
             kept == Kept(st.open, ms)
             new == New(kept, ms)
         IN [open |-> kept \o new,
             out |-> st.out \o Closing(st.open, ms) \o Opening(new)
                     \o << Ev(IF IsCode(n) THEN "code" ELSE "text", "", <<>>, n.s) >>]
    [] n.t = "hard_break" ->
         [open |-> <<>>, out |-> st.out \o Closing(st.open, <<>>) \o << Ev("hard", "", <<>>, <<>>) >>]
    [] n.t = "image" ->
         LET x == << n.a[2][3], n.a[3][3] >>
             alt == IF n.a[1][3] = "" THEN <<>>
                    ELSE << [e |-> "text", g |-> "", x |-> <<>>, u |-> <<>>, s |-> n.a[1][3]] >>
         IN [open |-> <<>>,
             out |-> st.out \o Closing(st.open, <<>>) \o << Ev("start", "image", x, <<>>) >>
                     \o alt \o << Ev("end", "image", x, <<>>) >>]

InlineEvents(cs) ==
  LET st == FoldLeft(WriteInline, [open |-> <<>>, out |-> <<>>], cs)
  IN st.out \o Closing(st.open, <<>>)

RECURSIVE BlockEvents(_)
BlocksEvents(cs) == FoldLeft(LAMBDA acc, n : acc \o BlockEvents(n), <<>>, cs)
BlockEvents(n) ==
  IF n.t = "horizontal_rule" THEN << Ev("rule", "", <<>>, <<>>) >>
  ELSE << Ev("start", n.t, TagArgs(n), <<>>) >>
       \o (CASE n.t \in {"paragraph", "heading"} -> InlineEvents(n.c)
             [] n.t = "code_block" -> InlineEvents(n.c) \o << Ev("text", "", <<>>, << NewLine >>) >>
             [] OTHER -> BlocksEvents(n.c))
       \o << Ev("end", n.t, TagArgs(n), <<>>) >>

EventsOf(doc) == BlocksEvents(doc.c)

\* tags are properly nested
WellNested(evs) ==
  LET st == FoldLeft(LAMBDA st, e :
               IF e.e = "start" THEN [st EXCEPT !.open = Append(@, << e.g, e.x >>)]
               ELSE IF e.e = "end"
               THEN IF st.open = <<>> \/ st.open[Len(st.open)] # << e.g, e.x >> THEN [st EXCEPT !.ok = FALSE]
                    ELSE [st EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
               ELSE st, [open |-> <<>>, ok |-> TRUE], evs)
  IN st.ok /\ st.open = <<>>
=============================================================================
