------------------------------- MODULE PMStep -------------------------------
(* Steps and their outcomes: [ok, toks, why], with the inner tokens of the    *)
(* resulting document, or the set of reasons for which the step is rejected   *)
(* (as <<error, detail, detail>>).                                            *)
EXTENDS PMReplace, PMMarks

Rej(S) == [ok |-> FALSE, why |-> S, toks |-> <<>>]
Acc(toks) == [ok |-> TRUE, why |-> {}, toks |-> toks]

-----------------------------------------------------------------------------
\* would a structural replacement of this range overwrite content?
Overwrites(T, from, to) == ~OnlyStructure(T, from, to)

ReplaceStepOutcome(doc, T, s) ==
  IF s.structure /\ ~Resolvable(T, s.from) THEN Rej({<<"Resolve", "", "">>})
  ELSE IF s.structure /\ Overwrites(T, s.from, s.to)
  THEN Rej({<<"WouldOverwrite", "", "">>}
           \cup (IF Resolvable(T, s.to) THEN {} ELSE {<<"Resolve", "", "">>}))
  ELSE ReplaceOutcome(doc, T, s.from, s.to, s.slice)

-----------------------------------------------------------------------------
(* Replace around                                                             *)

\* Is the node at depth k on the path to position q of a slice's content (tokens SC) open,
\* i.e. one of the nodes its open depths leave incomplete?
OpenInSlice(SC, os, oe, q, k) ==
  LET pq == PathToks(SC, q)
      i  == pq[k]
  IN \/ k <= os /\ \A j \in 1..k : pq[j] = j
     \/ k <= oe /\ \A j \in 1..k : CloseOf(SC, pq[j]) = Len(SC) + 1 - j

\* what putting the nodes gap into the slice at offset insert gives:
\* [ok, why, slice]
InsertGap(slice, insert, gap) ==
  LET SC == ToksSeq(slice.c)
      q  == insert + slice.os
      no(S) == [ok |-> FALSE, why |-> S, slice |-> EmptySlice]
  IN
  IF ~Resolvable(SC, q) THEN no({<<"InsertIndex", "", "">>})
  ELSE
  LET k  == DepthAt(SC, q)
      root == MkNode("root", <<>>, <<>>, <<>>, slice.c)
      tp == TreePath(root, q)
      parent == tp[Len(tp)].node
      ix == tp[Len(tp)].index
      pre  == SubSeq(parent.c, 1, ix)
      post == SubSeq(parent.c, ix + 1, Len(parent.c))
      checked == k > 0 /\ ~OpenInSlice(SC, slice.os, slice.oe, q, k)
      good == [ok |-> TRUE, why |-> {},
               slice |-> [c |-> Parse(SubSeq(SC, 1, q) \o ToksSeq(gap) \o SubSeq(SC, q + 1, Len(SC))),
                          os |-> slice.os, oe |-> slice.oe]]
  IN
  IF ~checked THEN good
  ELSE IF ~Viable(Expr[parent.t], TypesOf(pre)) THEN no({<<"InsertContent", "", "">>})
  ELSE IF Matches(Expr[parent.t], TypesOf(pre \o gap \o post))
          /\ (AllowsMarks(parent.t) \/ \A i \in 1..Len(gap) : gap[i].m = <<>>)
  THEN good
  ELSE no({<<"GapNotFit", "", "">>})

ReplaceAroundOutcome(doc, T, s) ==
  LET guard == s.structure /\ Resolvable(T, s.from) /\ Resolvable(T, s.gapTo)
               /\ (Overwrites(T, s.from, s.gapFrom) \/ Overwrites(T, s.gapTo, s.to))
      guardErr == s.structure /\ (~Resolvable(T, s.from) \/ ~Resolvable(T, s.gapTo))
      sliceable == s.gapFrom = s.gapTo
                   \/ (s.gapFrom <= s.gapTo /\ Resolvable(T, s.gapFrom) /\ Resolvable(T, s.gapTo))
      pre == (IF guard THEN {<<"GapWouldOverwrite", "", "">>} ELSE {})
             \cup (IF guardErr THEN {<<"Resolve", "", "">>} ELSE {})
             \cup (IF ~sliceable THEN {<<"Resolve", "", "">>} ELSE {})
  IN IF pre # {} THEN Rej(pre)
  ELSE
  LET gap == SliceOf(T, s.gapFrom, s.gapTo, FALSE)
  IN IF gap.os # 0 \/ gap.oe # 0 THEN Rej({<<"GapNotFlat", "", "">>})
  ELSE
  LET ins == InsertGap(s.slice, s.insert, gap.c)
  IN IF ~ins.ok THEN Rej(ins.why)
     ELSE ReplaceOutcome(doc, T, s.from, s.to, ins.slice)

-----------------------------------------------------------------------------
(* Mark steps on a valid document: a map over the tokens in the range         *)

RangeOk(T, from, to) == from <= to /\ Resolvable(T, from) /\ Resolvable(T, to)

\* type of the node directly around each token
ParentTypes(t, T) ==
  FoldLeft(LAMBDA st, tok :
             IF tok[1] = "o" THEN [st EXCEPT !.stack = Append(@, tok[2]), !.out = Append(@, "")]
             ELSE IF tok[1] = "c" THEN [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.out = Append(@, "")]
             ELSE [st EXCEPT !.out = Append(@, st.stack[Len(st.stack)])],
           [stack |-> <<t>>, out |-> <<>>], T).out

AddMarkToks(t, T, from, to, m) ==
  LET pt == ParentTypes(t, T)
  IN [i \in 1..Len(T) |->
        IF i > from /\ i <= to /\ T[i][1] = "x" /\ AllowsMarks(pt[i])
        THEN <<"x", T[i][2], <<>>, AddMarkTo(T[i][4], m)>> ELSE T[i]]

RemoveMarkToks(T, from, to, m) ==
  [i \in 1..Len(T) |->
     IF i > from /\ i <= to /\ T[i][1] = "x"
     THEN <<"x", T[i][2], <<>>, RemoveMarkFrom(T[i][4], m)>> ELSE T[i]]

\* the tokens of the document with the step's mark added to or removed from the range
MarkedToks(doc, T, s) ==
  IF s.st = "addMark" THEN AddMarkToks(doc.t, T, s.from, s.to, s.mark)
  ELSE RemoveMarkToks(T, s.from, s.to, s.mark)

\* in a valid document a mark step is accepted whenever its range is ...
MarkStepOutcome(doc, T, s) ==
  IF ~RangeOk(T, s.from, s.to) THEN Rej({<<"Resolve", "", "">>})
  ELSE Acc(MarkedToks(doc, T, s))

\* ... in any other one it is the replacement of the range by itself, with other marks
AnyMarkStepOutcome(doc, T, s) ==
  IF s.from # s.to /\ ~RangeOk(T, s.from, s.to) THEN Rej({<<"Resolve", "", "">>})
  ELSE ReplaceOutcome(doc, T, s.from, s.to,
         IF s.from = s.to THEN EmptySlice
         ELSE SliceOf(MarkedToks(doc, T, s), s.from, s.to, FALSE))

-----------------------------------------------------------------------------
StepOutcome(doc, T, s) ==
  CASE s.st = "replace"       -> ReplaceStepOutcome(doc, T, s)
    [] s.st = "replaceAround" -> ReplaceAroundOutcome(doc, T, s)
    [] OTHER                  -> AnyMarkStepOutcome(doc, T, s)

\* the document a step with inner tokens toks leads to (text in normal form)
WithToks(doc, toks) == [doc EXCEPT !.c = Parse(toks)]

-----------------------------------------------------------------------------
(* Which nodes of a slice are complete                                        *)

\* All nodes of a slice other than those its open depths leave incomplete are valid. q is the
\* position among the tokens of cs at which a gap goes (-1: none): the node directly around
\* it is complete only with the gap in it, and is not judged by itself.
RECURSIVE EnclosedValid0(_, _, _, _)
EnclosedValid0(cs, os, oe, q) ==
  LET ends == Ends(cs) IN
  \A i \in 1..Len(cs) :
    LET st  == IF i = 1 THEN 0 ELSE ends[i - 1]
        os1 == IF i = 1 THEN os ELSE 0
        oe1 == IF i = Len(cs) THEN oe ELSE 0
        in  == ~IsLeaf(cs[i]) /\ q > st /\ q < ends[i]
        q1  == IF in THEN q - st - 1 ELSE 0 - 1
        e1  == Ends(cs[i].c)
        deeper == in /\ \E k \in 1..Len(cs[i].c) :
                          /\ ~IsLeaf(cs[i].c[k])
                          /\ q1 > (IF k = 1 THEN 0 ELSE e1[k - 1]) /\ q1 < e1[k]
    IN /\ os1 > 0 \/ oe1 > 0 \/ (in /\ ~deeper) \/ ValidChildren(cs[i].t, cs[i].c)
       /\ EnclosedValid0(cs[i].c, IF os1 > 0 THEN os1 - 1 ELSE 0, IF oe1 > 0 THEN oe1 - 1 ELSE 0, q1)
EnclosedValid(slice) == EnclosedValid0(slice.c, slice.os, slice.oe, 0 - 1)
EnclosedValidAround(slice, insert) == EnclosedValid0(slice.c, slice.os, slice.oe, insert + slice.os)
=============================================================================
