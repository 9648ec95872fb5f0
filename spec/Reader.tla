-------------------------------- MODULE Reader --------------------------------
(* Reading markdown: every sequence of events that a CommonMark parser can    *)
(* report, up to a number. Blocks are nested as CommonMark nests them; list   *)
(* items also hold inline content directly (tight lists).                     *)
EXTENDS PMMarkdown, IOUtils

MaxLen == atoi(IOEnv.MAX)

VARIABLES st,    \* the reader
          ctx,   \* the open tags, outermost first: <<tag, empty?>>
          n,     \* events so far
          txt    \* the text they had
vars == <<st, ctx, n, txt>>

Ev(e, g, x, u, s) == [e |-> e, g |-> g, x |-> x, u |-> u, s |-> s]
ArgsOf(g) == CASE g = "heading" -> <<"1">> [] g = "code_block" -> <<"">> [] g = "ordered_list" -> <<"1">>
               [] g = "link" -> <<"/u", "">> [] g = "image" -> <<"/i", "t">> [] OTHER -> <<>>
Inlines == {"paragraph", "heading", "em", "strong", "link", "image"}
Containers == {"doc", "blockquote", "list_item"}
BlockStarts == {"paragraph", "heading", "code_block", "blockquote", "bullet_list", "ordered_list"}
MarkStarts == {"em", "strong", "link", "image"}
Top_ == ctx[Len(ctx)]

\* the tags that can start here
Starts ==
  (IF Top_[1] \in Containers THEN BlockStarts ELSE {})
  \cup (IF Top_[1] \in {"bullet_list", "ordered_list"} THEN {"list_item"} ELSE {})
  \cup (IF Top_[1] \in Inlines \cup {"list_item"} THEN MarkStarts ELSE {})
Texts ==
  CASE Top_[1] \in Inlines \cup {"list_item"} ->
         {Ev("text", "", <<>>, <<"a">>, "a"), Ev("code", "", <<>>, <<"b">>, "b"), Ev("hard", "", <<>>, <<>>, ""),
          Ev("code", "", <<>>, <<>>, ""), Ev("soft", "", <<>>, <<>>, "")}
    [] Top_[1] = "code_block" -> {Ev("text", "", <<>>, <<"a">>, "a"), Ev("text", "", <<>>, <<"a", NewLine>>, "a")}
    [] OTHER -> {}
\* lists have items; there are no links in links
CanEnd == Len(ctx) > 1 /\ (Top_[1] \in {"bullet_list", "ordered_list"} => ~Top_[2])
Fine(g) == g = "link" => \A i \in 1..Len(ctx) : ctx[i][1] # "link"

Take(ev, c) ==
  /\ n < MaxLen
  /\ st' = ReadEvent(st, ev) /\ n' = n + 1 /\ ctx' = c
  /\ txt' = IF \E i \in 1..Len(ctx) : ctx[i][1] = "image" THEN txt ELSE txt \o ev.u
Filled == [ctx EXCEPT ![Len(ctx)][2] = FALSE]

Init == st = StartState /\ ctx = << <<"doc", TRUE>> >> /\ n = 0 /\ txt = <<>>
Next ==
  /\ st.ok
  /\ \/ \E g \in Starts : Fine(g) /\ Take(Ev("start", g, ArgsOf(g), <<>>, ""), Append(Filled, <<g, TRUE>>))
     \/ \E e \in Texts : Take(e, Filled)
     \/ Top_[1] \in Containers /\ Take(Ev("rule", "", <<>>, <<>>, ""), Filled)
     \/ CanEnd /\ Take(Ev("end", Top_[1], ArgsOf(Top_[1]), <<>>, ""), SubSeq(ctx, 1, Len(ctx) - 1))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoBreaks(u) == SelectSeq(u, LAMBDA x : x # NewLine)
TextOf(d) == LET x == SelectSeq(Inside(d), LAMBDA t : t[1] = "x") IN [i \in 1..Len(x) |-> x[i][2]]
Result == MkNode("doc", <<>>, <<>>, <<>>, FillBlocks(Top(st).c, FALSE))

\* whatever was read and closed is a valid document in normal form with that text
ReadsValid == (Len(ctx) = 1 /\ st.ok) =>
                /\ Valid(Result) /\ Normal(Result)
                /\ NoBreaks(TextOf(Result)) = NoBreaks(txt)
\* the reader's stacks follow the tags
Stacks == st.ok =>
            /\ Len(st.stack) = Cardinality({i \in 1..Len(ctx) : ctx[i][1] \notin MarkTags})
            /\ Len(st.marks) = Cardinality({i \in 1..Len(ctx) : ctx[i][1] \in MarkTags})
            /\ CanonicalMarks(CurrentMarks(st))
            /\ \A i \in 1..Len(st.stack) : NormalSeq(st.stack[i].c)
=============================================================================
