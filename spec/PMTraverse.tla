----------------------------- MODULE PMTraverse -----------------------------
(* Visiting the nodes in a range, text extraction, cutting and appending.     *)
EXTENDS PMReplace

\* all nodes below the children cs, in document order, with absolute start and end and the
\* child indices that lead to them
RECURSIVE Spans(_, _, _)
Spans(cs, base, addr) ==
  FoldLeft(LAMBDA st, n :
      LET a == Append(addr, st.ix) IN
      [pos |-> st.pos + Size(n), ix |-> st.ix + 1,
       out |-> st.out \o << [node |-> n, from |-> st.pos, to |-> st.pos + Size(n), addr |-> a] >>
               \o (IF IsLeaf(n) THEN <<>> ELSE Spans(n.c, st.pos + 1, a))],
      [pos |-> base, ix |-> 1, out |-> <<>>], cs).out

(* The nodes that overlap [from, to], in document order, without those below  *)
(* a node at whose start (a position in declined) the callback said no.       *)
Visited(cs, from, to, declined) ==
  LET all == Spans(cs, 0, <<>>)
      hidden(x) == \E i \in 1..Len(all) :
                      /\ all[i].from \in declined /\ ~IsLeaf(all[i].node)
                      /\ all[i].to > from /\ all[i].from < to
                      /\ all[i].from < x.from /\ x.to < all[i].to
      over(x) == x.to > from /\ x.from < to
  IN SelectSeq(all, LAMBDA x : over(x) /\ ~hidden(x))

\* units of the text of span x that lie in [from, to]
TextIn(x, from, to) ==
  SubSeq(x.node.s, (IF from > x.from THEN from - x.from ELSE 0) + 1,
         IF to < x.to THEN to - x.from ELSE Len(x.node.s))

(* Text between two positions: sep and leaf are <<>> or <<units>>; separated  *)
(* says that no separator is due before the first text.                       *)
TextBetween(cs, from, to, sep, leaf, separated) ==
  FoldLeft(LAMBDA st, x :
      IF IsText(x.node)
      THEN [out |-> st.out \o TextIn(x, from, to), due |-> sep # <<>>]
      ELSE IF IsLeaf(x.node)
      THEN [out |-> st.out \o (IF leaf # <<>> THEN leaf[1] ELSE <<>>), due |-> sep # <<>>]
      ELSE IF st.due /\ IsBlockNode(x.node.t)
      THEN [out |-> st.out \o (IF sep # <<>> THEN sep[1] ELSE <<>>), due |-> FALSE]
      ELSE st,
    [out |-> <<>>, due |-> ~separated], Visited(cs, from, to, {})).out

\* all text of a node
AllText(n) ==
  IF IsText(n) THEN n.s
  ELSE LET T == SelectSeq(Inside(n), LAMBDA tok : tok[1] = "x")
       IN [i \in 1..Len(T) |-> T[i][2]]

-----------------------------------------------------------------------------
\* the tokens of [from, to] with the nodes around both ends
CutToks(T, from, to) ==
  IF from >= to THEN <<>> ELSE SliceToks(T, from, to, 0)

\* two sequences of nodes one after the other: two texts with equal marks that meet are joined
AppendSeq(a, b) ==
  IF a # <<>> /\ b # <<>> /\ IsText(a[Len(a)]) /\ IsText(b[1]) /\ a[Len(a)].m = b[1].m
  THEN SubSeq(a, 1, Len(a) - 1)
       \o << [a[Len(a)] EXCEPT !.s = @ \o b[1].s] >>
       \o SubSeq(b, 2, Len(b))
  ELSE a \o b
=============================================================================
