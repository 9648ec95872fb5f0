-------------------------------- MODULE Writer --------------------------------
(* Writing and reading back: the events written for a document describe it.   *)
EXTENDS PMWrite, Small, IOUtils

MaxSize == atoi(IOEnv.MAX)
InlSize == atoi(IOEnv.CUTS)
mk(k) == [k |-> k, a |-> <<>>]
Link(h) == [k |-> "link", a |-> << <<"href", "s", h>>, <<"title", "s", "">> >>]
ManyMarks == { <<>>, <<mk("em")>>, <<mk("strong")>>, <<mk("strong"), mk("em")>>, <<mk("code")>>, <<mk("em"), mk("code")>>,
               <<Link("/u")>>, <<Link("/v")>>, <<mk("em"), Link("/u")>>, <<mk("strong"), mk("em"), mk("code"), Link("/u")>> }
Alt == [ImageN EXCEPT !.a[1][3] = "alt", !.a[3][3] = "t"]
Paras == {NodeN("doc", << NodeN("paragraph", c) >>) : c \in UNION {Inline(i, ManyMarks, {LeafN("hard_break"), Alt}) : i \in 0..InlSize}}

VARIABLES doc, out    \* the document, and what has been read of it so far
Init == doc \in Docs(MaxSize, 2) \cup Paras /\ out = << >>
\* the writer writes one event after the other ...
Next == /\ Len(out) < Len(EventsOf(doc))
        /\ out' = Append(out, EventsOf(doc)[Len(out) + 1])
        /\ doc' = doc
Spec == Init /\ [][Next]_<<doc, out>>

\* ... the reader accepts each, and nothing it has read is lost
Reading == FoldLeft(ReadEvent, StartState, out).ok
UnitsOf(evs) == FoldLeft(LAMBDA acc, e : acc \o e.u, <<>>, evs)
TextOf(d) == LET x == SelectSeq(Inside(d), LAMBDA t : t[1] = "x") IN [i \in 1..Len(x) |-> x[i][2]]
NoBreaks(u) == SelectSeq(u, LAMBDA x : x # NewLine)
Complete ==
  Len(out) = Len(EventsOf(doc)) =>
    /\ WellNested(out)
    /\ NoBreaks(UnitsOf(out)) = NoBreaks(TextOf(doc))
    /\ LET x == FromEvents(out) IN x.ok /\ x.doc = doc
=============================================================================
