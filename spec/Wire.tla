--------------------------------- MODULE Wire ---------------------------------
(* The JSON form: every small value is written to JSON that reads as that     *)
(* value; nothing can be left out, and no field stands for two things.        *)
EXTENDS PMJson, Small, IOUtils

MaxSize == atoi(IOEnv.MAX)
Rich == atoi(IOEnv.RICH)
TS == {"paragraph", "heading", "code_block", "blockquote", "bullet_list", "ordered_list", "list_item"}

mk(k) == [k |-> k, a |-> <<>>]
Link(h, t) == [k |-> "link", a |-> << <<"href", "s", h>>, <<"title", "s", t>> >>]
MarkPool == {mk("strong"), mk("em"), mk("code"), Link("a", ""), Link("a", "t")}
Sets == {FromList(l) : l \in {l \in UNION {[1..i -> MarkPool] : i \in 0..3} : DistinctTypes(l)}}

Nodes == Docs(MaxSize, Rich)
         \cup {c[i] : c \in {c \in AnyContent(MaxSize - 1, TS) : c # <<>>}, i \in {1}}
         \cup {TextN(<<"a">>, m) : m \in Sets} \cup {TextN(<<>>, NoM), ImageN}
Str(s) == [c |-> s.c, os |-> ToString(s.os), oe |-> ToString(s.oe)]
Slices == {Str(s) : s \in FreeSlices(MaxSize - 2, {"paragraph", "blockquote"}) \cup CutSlices(Docs(MaxSize - 1, Rich))}
Steps ==
  {[st |-> "replace", from |-> "1", to |-> "2", slice |-> s, structure |-> b] : s \in Slices, b \in BOOLEAN}
  \cup {[st |-> "replaceAround", from |-> "1", to |-> "6", gapFrom |-> "2", gapTo |-> "5", insert |-> "1",
         slice |-> s, structure |-> b] : s \in Slices, b \in BOOLEAN}
  \cup {[st |-> st, from |-> "1", to |-> "2", mark |-> m] : st \in {"addMark", "removeMark"}, m \in MarkPool}

VARIABLES kind, val
Init == \/ kind = "node" /\ val \in Nodes
        \/ kind = "mark" /\ val \in MarkPool
        \/ kind = "slice" /\ val \in Slices
        \/ kind = "step" /\ val \in Steps
\* leaving out a field
Drop(o, i) == [o EXCEPT !.k = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)),
                        !.v = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Swap(o) == [o EXCEPT !.k = Reverse(@), !.v = Reverse(@)]

RoundTrip == Read(kind, Write(kind, val)) = << val >>
OnlyKnown == Clean(kind, Write(kind, val))
AnyOrder  == Read(kind, Swap(Write(kind, val))) = << val >>
\* a value without one of the fields it was written with is another value or none
Needed    == LET o == Write(kind, val)
             IN \A i \in 1..Len(o.k) : Read(kind, Drop(o, i)) # << val >>
Next == FALSE /\ UNCHANGED <<kind, val>>
Spec == Init /\ [][Next]_<<kind, val>>
=============================================================================
