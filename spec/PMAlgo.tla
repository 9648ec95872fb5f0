------------------------------- MODULE PMAlgo -------------------------------
(* The algorithms of the library, on trees: how positions are resolved,       *)
(* ranges are replaced, fragments cut and walked, marks inserted and content  *)
(* matched. Editor.tla and Marks.tla check that they compute what the rest of *)
(* the specification says by counting tokens.                                 *)
EXTENDS PMStep, PMTraverse

Good(c) == [ok |-> TRUE, why |-> <<>>, c |-> c]
Fail(w) == [ok |-> FALSE, why |-> w, c |-> <<>>]

\* a resolved position is the way down to it: TreePath (depth d is element d + 1)
RDepth(rp) == Len(rp) - 1
RIndex(rp, d) == rp[d + 1].index
RNode(rp, d) == rp[d + 1].node
ROffset(rp) == rp[Len(rp)].rest
RNodeAfter(rp) ==
  LET l == rp[Len(rp)] IN CutText(l.node.c[l.index + 1], l.rest, Len(l.node.c[l.index + 1].s))
RNodeBefore(rp) ==
  LET l == rp[Len(rp)] IN CutText(l.node.c[l.index + 1], 0, l.rest)

AddOne(cs, n) ==
  IF cs # <<>> /\ n.t = "text" /\ cs[Len(cs)].t = "text" /\ cs[Len(cs)].m = n.m
  THEN [cs EXCEPT ![Len(cs)].s = @ \o n.s]
  ELSE Append(cs, n)
AddAll(cs, ns) == FoldLeft(AddOne, cs, ns)

(* The children between two positions at a depth; a missing position is <<>>  *)
AddRange(start, end, d, target) ==
  LET node == IF end # <<>> THEN RNode(end, d) ELSE RNode(start, d)
      last == IF end # <<>> THEN RIndex(end, d) ELSE Len(node.c)
      cutStart == start # <<>> /\ RDepth(start) = d /\ ROffset(start) > 0
      first == IF start = <<>> THEN 0
               ELSE RIndex(start, d) + (IF RDepth(start) > d \/ cutStart THEN 1 ELSE 0)
      a == IF cutStart THEN AddOne(target, RNodeAfter(start)) ELSE target
      b == IF first < last THEN AddAll(a, SubSeq(node.c, first + 1, last)) ELSE a
  IN IF end # <<>> /\ RDepth(end) = d /\ ROffset(end) > 0 THEN AddOne(b, RNodeBefore(end)) ELSE b

CloseNode(node, r) ==
  IF ~r.ok THEN r
  ELSE IF ValidChildren(node.t, r.c) THEN Good(<< [node EXCEPT !.c = r.c] >>)
  ELSE Fail(<<"InvalidContent", node.t, "">>)

JoinError(main, sub) ==
  IF Compatible(sub.t, main.t) THEN <<>> ELSE <<"CannotJoin", sub.t, main.t>>

RECURSIVE TwoWay(_, _, _)
TwoWay(rf, rt, d) ==
  LET a == AddRange(<<>>, rf, d, <<>>) IN
  IF RDepth(rf) > d
  THEN LET e == JoinError(RNode(rf, d + 1), RNode(rt, d + 1)) IN
       IF e # <<>> THEN Fail(e)
       ELSE LET child == CloseNode(RNode(rf, d + 1), TwoWay(rf, rt, d + 1)) IN
            IF ~child.ok THEN child ELSE Good(AddRange(rt, <<>>, d, AddAll(a, child.c)))
  ELSE Good(AddRange(rt, <<>>, d, a))

RECURSIVE ThreeWay(_, _, _, _, _)
ThreeWay(rf, rs, re, rt, d) ==
  LET os == RDepth(rf) > d
      oe == RDepth(rt) > d
      e1 == IF os THEN JoinError(RNode(rf, d + 1), RNode(rs, d + 1)) ELSE <<>>
      e2 == IF oe THEN JoinError(RNode(re, d + 1), RNode(rt, d + 1)) ELSE <<>>
      a  == AddRange(<<>>, rf, d, <<>>)
  IN
  IF e1 # <<>> THEN Fail(e1)
  ELSE IF e2 # <<>> THEN Fail(e2)
  ELSE IF os /\ oe /\ RIndex(rs, d) = RIndex(re, d)
  THEN LET e3 == JoinError(RNode(rf, d + 1), RNode(re, d + 1)) IN
       IF e3 # <<>> THEN Fail(e3)
       ELSE LET c == CloseNode(RNode(rf, d + 1), ThreeWay(rf, rs, re, rt, d + 1))
            IN IF ~c.ok THEN c ELSE Good(AddRange(rt, <<>>, d, AddAll(a, c.c)))
  ELSE LET c1 == IF os THEN CloseNode(RNode(rf, d + 1), TwoWay(rf, rs, d + 1)) ELSE Good(<<>>) IN
       IF ~c1.ok THEN c1
       ELSE LET b  == AddRange(rs, re, d, AddAll(a, c1.c))
                c2 == IF oe THEN CloseNode(RNode(re, d + 1), TwoWay(re, rt, d + 1)) ELSE Good(<<>>)
            IN IF ~c2.ok THEN c2 ELSE Good(AddRange(rt, <<>>, d, AddAll(b, c2.c)))

(* Cutting the children cs: as in the library, child by child                 *)
RECURSIVE CutSeq(_, _, _)
CutNode(n, from, to) ==
  IF IsText(n) THEN CutText(n, from, to)
  ELSE IF IsLeaf(n) THEN n
  ELSE [n EXCEPT !.c = CutSeq(n.c, from, to)]
CutSeq(cs, from, to) ==
  IF from >= to THEN <<>>
  ELSE FoldLeft(LAMBDA st, n :
         LET s == Size(n)
             cut == st.pos < from \/ st.pos + s > to
             lo(off) == IF from > st.pos + off THEN from - st.pos - off ELSE 0
             hi(off, max) == IF to < st.pos + off THEN 0 ELSE Lesser(max, to - st.pos - off)
             x == IF ~cut THEN n
                  ELSE IF IsText(n) THEN CutNode(n, lo(0), hi(0, s))
                  ELSE CutNode(n, lo(1), hi(1, SizeSeq(n.c)))
         IN IF st.pos >= to \/ st.pos + s <= from THEN [st EXCEPT !.pos = @ + s]
            ELSE [pos |-> st.pos + s, out |-> Append(st.out, x)],
       [pos |-> 0, out |-> <<>>], cs).out

\* a slice wrapped in the nodes around rp, as far as it is not open
PrepareSlice(slice, rp) ==
  LET extra == RDepth(rp) - slice.os
      inner == [RNode(rp, extra) EXCEPT !.c = slice.c]
      wrap == FoldLeft(LAMBDA n, i : [RNode(rp, extra - i) EXCEPT !.c = << n >>], inner,
                       [i \in 1..extra |-> i])
  IN [n |-> wrap, from |-> slice.os + extra, to |-> SizeSeq(wrap.c) - slice.oe - extra]

RECURSIVE Outer(_, _, _, _)
Outer(rf, rt, slice, d) ==
  LET node == RNode(rf, d)
      index == RIndex(rf, d)
  IN
  IF index = RIndex(rt, d) /\ d < RDepth(rf) - slice.os
  THEN LET inner == Outer(rf, rt, slice, d + 1)
       IN IF ~inner.ok THEN inner ELSE Good(<< [node EXCEPT !.c[index + 1] = inner.c[1]] >>)
  ELSE IF SizeSeq(slice.c) = 0 THEN CloseNode(node, TwoWay(rf, rt, d))
  ELSE IF slice.os = 0 /\ slice.oe = 0 /\ RDepth(rf) = d /\ RDepth(rt) = d
  THEN LET c == RNode(rf, d).c
           pf == rf[d + 1].off
           pt == rt[d + 1].off
       IN CloseNode(node, Good(AppendSeq(AppendSeq(CutSeq(c, 0, pf), slice.c), CutSeq(c, pt, SizeSeq(c)))))
  ELSE LET p == PrepareSlice(slice, rf)
       IN CloseNode(node, ThreeWay(rf, TreePath(p.n, p.from), TreePath(p.n, p.to), rt, d))

RECURSIVE FirstDepth(_), LastDepth(_)
FirstDepth(cs) == IF cs = <<>> \/ IsLeaf(cs[1]) THEN 0 ELSE 1 + FirstDepth(cs[1].c)
LastDepth(cs)  == IF cs = <<>> \/ IsLeaf(cs[Len(cs)]) THEN 0 ELSE 1 + LastDepth(cs[Len(cs)].c)

AlgoReplace(doc, from, to, slice) ==
  LET rf == TreePath(doc, from)
      rt == TreePath(doc, to)
  IN IF slice.os > RDepth(rf) THEN Fail(<<"InsertTooDeep", "", "">>)
     ELSE IF RDepth(rf) - slice.os # RDepth(rt) - slice.oe THEN Fail(<<"InconsistentOpenDepths", "", "">>)
     ELSE IF slice.os > FirstDepth(slice.c) \/ slice.oe > LastDepth(slice.c)
     THEN Fail(<<"InvalidOpenDepths", "", "">>)
     ELSE Outer(rf, rt, slice, 0)

\* slices: the node at the shared depth, cut
AlgoSlice(doc, from, to, parents) ==
  IF from = to THEN EmptySlice
  ELSE LET rf == TreePath(doc, from)
           rt == TreePath(doc, to)
           shared == IF parents THEN 0
                     ELSE CHOOSE d \in 0..RDepth(rf) :
                            LET fits(e) == LET st == from - rf[e + 1].off
                                           IN st <= to /\ to <= st + SizeSeq(RNode(rf, e).c)
                            IN fits(d) /\ \A e \in (d + 1)..RDepth(rf) : ~fits(e)
           start == from - rf[shared + 1].off
       IN [c  |-> CutSeq(RNode(rf, shared).c, from - start, to - start),
           os |-> RDepth(rf) - shared,
           oe |-> RDepth(rt) - shared]

-----------------------------------------------------------------------------
(* Putting a gap into a slice, one level after the other                      *)
RECURSIVE InsertInto(_, _, _, _, _, _)
InsertInto(cs, dist, gap, parent, os, oe) ==
  LET ends == Ends(cs)
      no(k) == [ok |-> FALSE, why |-> k, c |-> <<>>]
  IN
  IF dist > SizeSeq(cs) THEN no("InsertIndex")
  ELSE
  LET ix == IndexAt(ends, dist)
      st == IF ix = 0 THEN 0 ELSE ends[ix]
      here == st = dist \/ IsText(cs[ix + 1])
  IN
  IF here
  THEN IF parent # "" /\ ~Viable(Expr[parent], TypesOf(SubSeq(cs, 1, ix))) THEN no("InsertContent")
       ELSE IF parent # "" /\ ~(/\ Matches(Expr[parent], TypesOf(SubSeq(cs, 1, ix) \o gap \o SubSeq(cs, ix + 1, Len(cs))))
                                /\ AllowsMarks(parent) \/ \A i \in 1..Len(gap) : gap[i].m = <<>>)
       THEN no("GapNotFit")
       ELSE Good(AppendSeq(AppendSeq(CutSeq(cs, 0, dist), gap), CutSeq(cs, dist, SizeSeq(cs))))
  ELSE LET os1 == IF ix = 0 THEN os ELSE 0
           oe1 == IF ix + 1 = Len(cs) THEN oe ELSE 0
           child == cs[ix + 1]
           in == InsertInto(child.c, dist - st - 1, gap, IF os1 > 0 \/ oe1 > 0 THEN "" ELSE child.t,
                            IF os1 > 0 THEN os1 - 1 ELSE 0, IF oe1 > 0 THEN oe1 - 1 ELSE 0)
       IN IF ~in.ok THEN in ELSE Good([cs EXCEPT ![ix + 1].c = in.c])

-----------------------------------------------------------------------------
(* nodes_between: a recursive walk                                            *)
RECURSIVE Walk(_, _, _, _)
Walk(cs, from, to, base) ==
  FoldLeft(LAMBDA st, n :
      LET end == st.pos + Size(n) IN
      IF st.pos >= to THEN st
      ELSE [pos |-> end,
            out |-> IF end <= from THEN st.out
                    ELSE st.out \o << <<base + st.pos, n.t>> >>
                         \o (IF IsLeaf(n) THEN <<>>
                             ELSE LET start == st.pos + 1
                                  IN Walk(n.c, IF from > start THEN from - start ELSE 0,
                                          Lesser(SizeSeq(n.c), IF to > start THEN to - start ELSE 0),
                                          base + start))],
    [pos |-> 0, out |-> <<>>], cs).out

-----------------------------------------------------------------------------
(* Mark sets are vectors ordered by type                                      *)
RECURSIVE PlaceOf(_, _, _)
PlaceOf(v, k, i) ==   \* where a mark of type k is, or goes
  IF i > Len(v) \/ MarkRank[v[i].k] >= MarkRank[k] THEN i ELSE PlaceOf(v, k, i + 1)
VecAdd(v, m) ==
  LET i == PlaceOf(v, m.k, 1)
  IN IF i <= Len(v) /\ v[i].k = m.k THEN [v EXCEPT ![i] = m]
     ELSE SubSeq(v, 1, i - 1) \o << m >> \o SubSeq(v, i, Len(v))
VecRemove(v, m) ==
  LET i == PlaceOf(v, m.k, 1)
  IN IF i <= Len(v) /\ v[i] = m THEN SubSeq(v, 1, i - 1) \o SubSeq(v, i + 1, Len(v)) ELSE v

-----------------------------------------------------------------------------
(* Content expressions as the automaton of the markdown schema                *)
Start(t) ==
  CASE t \in {"doc", "blockquote"}             -> "block+"
    [] t \in {"bullet_list", "ordered_list"}   -> "list_item+"
    [] t = "list_item"                         -> "paragraph block*"
    [] t = "paragraph"                         -> "inline*"
    [] t = "heading"                           -> "(text | image)*"
    [] t = "code_block"                        -> "text*"
    [] OTHER                                   -> "empty"
Move(q, t) ==
  CASE q \in {"block+", "block*"} -> IF t \in BlockGroup THEN "block*" ELSE "fail"
    [] q \in {"list_item+", "list_item*"} -> IF t = "list_item" THEN "list_item*" ELSE "fail"
    [] q = "paragraph block*" -> IF t = "paragraph" THEN "block*" ELSE "fail"
    [] q = "inline*" -> IF t \in InlineGroup THEN q ELSE "fail"
    [] q = "(text | image)*" -> IF t \in {"text", "image"} THEN q ELSE "fail"
    [] q = "text*" -> IF t = "text" THEN q ELSE "fail"
    [] OTHER -> "fail"
Final(q) == q \in {"block*", "list_item*", "inline*", "(text | image)*", "text*", "empty"}
=============================================================================
