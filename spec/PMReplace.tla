----------------------------- MODULE PMReplace ------------------------------
(* Slices and the replacement of a range by a slice, on position tokens.      *)
(* A slice is a record [c, os, oe]: its nodes and its two open depths.        *)
EXTENDS PMPos

EmptySlice == [c |-> <<>>, os |-> 0, oe |-> 0]

\* the tokens of a range with the nodes it cuts open below depth D (from <= to)
SliceToks(T, from, to, D) ==
  LET pf == PathToks(T, from)
      pt == PathToks(T, to)
  IN [i \in 1..(Len(pf) - D) |-> T[pf[D + i]]]
     \o SubSeq(T, from + 1, to)
     \o [i \in 1..(Len(pt) - D) |-> CloseTok]

SliceOf(T, from, to, parents) ==
  IF from = to THEN EmptySlice
  ELSE LET D == IF parents THEN 0 ELSE SharedDepth(T, from, to)
       IN [c  |-> Parse(SliceToks(T, from, to, D)),
           os |-> DepthAt(T, from) - D,
           oe |-> DepthAt(T, to) - D]

-----------------------------------------------------------------------------
Lesser(a, b) == IF a <= b THEN a ELSE b

\* the open depths are no deeper than the nodes at the two ends of the slice
OpenDepthsFit(SC, os, oe) ==
  /\ os <= Len(SC) /\ oe <= Len(SC)
  /\ \A i \in 1..os : SC[i][1] = "o"
  /\ \A i \in 1..oe : SC[Len(SC) + 1 - i][1] = "c"

\* types of the nodes opened at the start and end of a slice, outermost first
StartSpine(SC, os) == [i \in 1..os |-> SC[i][2]]
EndSpine(SC, oe)   == LET p == PathToks(SC, Len(SC) - oe) IN [i \in 1..oe |-> SC[p[i]][2]]
\* ... of which the first so many are the same nodes
SharedSpine(SC, os, oe) ==
  LET p == PathToks(SC, Len(SC) - oe)
      S == {d \in 0..Lesser(os, oe) : \A k \in 1..d : p[k] = k}
  IN CHOOSE d \in S : \A e \in S : e <= d

\* The pairs of types <<joined, onto>> that meet when [from, to] is replaced
Joins(T, from, to, SC, os, oe) ==
  LET pf == PathToks(T, from)
      pt == PathToks(T, to)
      extra == Len(pf) - os
      ss == StartSpine(SC, os)
      es == EndSpine(SC, oe)
      sh == SharedSpine(SC, os, oe)
  IN IF SC = <<>>
     THEN {<<T[pt[k]][2], T[pf[k]][2]>> : k \in 1..Len(pf)}
     ELSE {<<T[pt[k]][2], T[pf[k]][2]>> : k \in 1..extra}
          \cup {<<ss[k], T[pf[extra + k]][2]>> : k \in 1..os}
          \cup {<<T[pt[extra + k]][2], es[k]>> : k \in 1..oe}
          \cup {<<es[k], T[pf[extra + k]][2]>> : k \in 1..sh}

\* tokens of the result
Spliced(T, from, to, SC, os, oe) ==
  SubSeq(T, 1, from) \o SubSeq(SC, os + 1, Len(SC) - oe) \o SubSeq(T, to + 1, Len(T))

\* the nodes around position p in the forest/node n, from depth d0 down: [t, c]
NodesOnPath(n, p, d0) ==
  LET tp == TreePath(n, p)
  IN {[t |-> tp[d + 1].node.t, c |-> tp[d + 1].node.c] : d \in d0..(Len(tp) - 1)}

(* The outcome of replacing [from, to] in node doc (with inner tokens T) by a *)
(* slice: [ok, toks] or the set of reasons why it has to be rejected.         *)
ReplaceOutcome(doc, T, from, to, slice) ==
  LET SC == ToksSeq(slice.c)
      os == slice.os
      oe == slice.oe
      rej(S) == [ok |-> FALSE, why |-> S, toks |-> <<>>]
  IN
  IF ~(from <= to /\ Resolvable(T, from) /\ Resolvable(T, to)) THEN rej({<<"Resolve", "", "">>})
  ELSE
  LET df == DepthAt(T, from)
      dt == DepthAt(T, to)
      bad == (IF os > df THEN {<<"InsertTooDeep", "", "">>} ELSE {})
             \cup (IF df - os # dt - oe THEN {<<"InconsistentOpenDepths", "", "">>} ELSE {})
             \cup (IF ~OpenDepthsFit(SC, os, oe) THEN {<<"InvalidOpenDepths", "", "">>} ELSE {})
  IN IF bad # {} THEN rej(bad)
  ELSE
  LET E  == Spliced(T, from, to, SC, os, oe)
      d0 == Lesser(SharedDepth(T, from, to), df - os)
      mid == Len(SC) - os - oe
      new == [doc EXCEPT !.c = Parse(E)]
      seam == IF Len(E) = 0 THEN {[t |-> doc.t, c |-> <<>>]}
              ELSE NodesOnPath(new, from, d0) \cup NodesOnPath(new, from + mid, d0)
      fits == {<<"CannotJoin", j[1], j[2]>> : j \in {j \in Joins(T, from, to, SC, os, oe) : ~Compatible(j[1], j[2])}}
              \cup {<<"InvalidContent", n.t, "">> : n \in {n \in seam : ~ValidChildren(n.t, n.c)}}
  IN IF fits # {} THEN rej(fits) ELSE [ok |-> TRUE, why |-> {}, toks |-> E]

-----------------------------------------------------------------------------
\* replaced tokens: only closing, then only opening ones (PosBound: within the document)
OnlyStructure(T, from, to) ==
  \/ to <= from
  \/ /\ to <= Len(T)
     /\ \A i \in (from + 1)..to : T[i][1] \in {"o", "c"}
     /\ \A i \in (from + 1)..(to - 1) : T[i][1] = "o" => T[i + 1][1] = "o"
=============================================================================
