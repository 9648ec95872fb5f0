------------------------------- MODULE PMDoc --------------------------------
(* Documents as trees and as sequences of position tokens.                    *)
(*                                                                            *)
(* A node is a record [t, a, s, m, c]: type, attributes (a sequence of        *)
(* <<name, kind, value>>), text (a sequence of UTF-16 units; text nodes       *)
(* only), marks (a sequence of [k, a]; text nodes only) and children.         *)
(*                                                                            *)
(* A token is <<kind, type or unit, attributes, marks>>: "o" opens a node,    *)
(* "c" closes it, "l" is a leaf, "x" a UTF-16 unit of text.                   *)
EXTENDS PMSchema, SequencesExt, Functions

\* names of the second halves of surrogate pairs in the text of a trace
LowUnits == {"L" \o ToString(i) : i \in 0..1023}

CloseTok == <<"c", "", <<>>, <<>>>>
OpenTok(n) == <<"o", n.t, n.a, <<>>>>

IsLeaf(n) == n.t \in LeafTypes
IsText(n) == n.t = "text"

TypesOf(cs) == [i \in 1..Len(cs) |-> cs[i].t]

RECURSIVE Toks(_)
ToksSeq(cs) == FoldLeft(LAMBDA acc, n : acc \o Toks(n), <<>>, cs)
Toks(n) ==
  IF n.t = "text" THEN [i \in 1..Len(n.s) |-> <<"x", n.s[i], <<>>, n.m>>]
  ELSE IF n.t \in LeafTypes THEN << <<"l", n.t, n.a, <<>>>> >>
  ELSE << OpenTok(n) >> \o ToksSeq(n.c) \o << CloseTok >>

\* the tokens inside a node
Inside(n) == ToksSeq(n.c)

RECURSIVE Size(_)
SizeSeq(cs) == FoldLeft(LAMBDA acc, n : acc + Size(n), 0, cs)
Size(n) ==
  IF n.t = "text" THEN Len(n.s)
  ELSE IF n.t \in LeafTypes THEN 1
  ELSE 2 + SizeSeq(n.c)

-----------------------------------------------------------------------------
(* From tokens back to a tree; adjacent text with equal marks is one node.    *)

MkNode(t, a, s, m, c) == [t |-> t, a |-> a, s |-> s, m |-> m, c |-> c]

AddUnit(cs, tok) ==
  LET n == Len(cs) IN
  IF n > 0 /\ cs[n].t = "text" /\ cs[n].m = tok[4]
  THEN [cs EXCEPT ![n].s = Append(@, tok[2])]
  ELSE Append(cs, MkNode("text", <<>>, <<tok[2]>>, tok[4], <<>>))

\* one step of the parser: a stack of open nodes, the bottom is the result
ParseStep(st, tok) ==
  LET n == Len(st) IN
  CASE tok[1] = "x" -> [st EXCEPT ![n].c = AddUnit(@, tok)]
    [] tok[1] = "l" -> [st EXCEPT ![n].c = Append(@, MkNode(tok[2], tok[3], <<>>, <<>>, <<>>))]
    [] tok[1] = "o" -> Append(st, MkNode(tok[2], tok[3], <<>>, <<>>, <<>>))
    [] tok[1] = "c" -> IF n = 1 THEN st
                       ELSE [SubSeq(st, 1, n - 1) EXCEPT ![n - 1].c = Append(@, st[n])]

\* the nodes described by a balanced sequence of tokens
Parse(toks) ==
  FoldLeft(ParseStep, << MkNode("root", <<>>, <<>>, <<>>, <<>>) >>, toks)[1].c

\* every prefix has at least as many opening as closing tokens, the whole equally many
Depths(toks) ==
  FoldLeft(LAMBDA st, tok : IF tok[1] = "o" THEN [st EXCEPT !.d = @ + 1]
                            ELSE IF tok[1] = "c"
                                 THEN [d |-> st.d - 1, min |-> IF st.d - 1 < st.min THEN st.d - 1 ELSE st.min]
                                 ELSE st,
           [d |-> 0, min |-> 0], toks)
Balanced(toks) == LET d == Depths(toks) IN d.d = 0 /\ d.min = 0

-----------------------------------------------------------------------------
(* Well-formedness                                                            *)

\* the node's own content is allowed: types in the content expression, marks allowed
ValidChildren(t, cs) ==
  /\ Matches(Expr[t], TypesOf(cs))
  /\ AllowsMarks(t) \/ \A i \in 1..Len(cs) : cs[i].m = <<>>

RECURSIVE Valid(_)
Valid(n) == ValidChildren(n.t, n.c) /\ \A i \in 1..Len(n.c) : Valid(n.c[i])

\* no empty text, no adjacent text with equal marks
NormalSeq0(cs) ==
  \A i \in 1..Len(cs) :
    cs[i].t = "text" =>
      /\ cs[i].s # <<>>
      /\ i < Len(cs) => ~(cs[i+1].t = "text" /\ cs[i+1].m = cs[i].m)
RECURSIVE Normal(_)
NormalSeq(cs) == NormalSeq0(cs) /\ \A i \in 1..Len(cs) : Normal(cs[i])
Normal(n) == (n.t = "text" => n.s # <<>>) /\ NormalSeq(n.c)

RECURSIVE HasEmptyText(_)
HasEmptyText(n) == (n.t = "text" /\ n.s = <<>>) \/ \E i \in 1..Len(n.c) : HasEmptyText(n.c[i])
EmptyTextIn(cs) == \E i \in 1..Len(cs) : HasEmptyText(cs[i])

\* marks are in canonical form: at most one per type, ordered by rank
CanonicalMarks(m) == \A i \in 1..(Len(m) - 1) : MarkRank[m[i].k] < MarkRank[m[i+1].k]

\* the same tokens and, if text is in normal form, the same tree
SameDoc(n, t, a, toks) == n.t = t /\ n.a = a /\ Inside(n) = toks
=============================================================================
