------------------------------- MODULE PMPos --------------------------------
(* Positions: what resolving a position in a node says, by counting tokens.   *)
EXTENDS PMDoc

\* indices (in T) of the opening tokens of the nodes around position p, outermost first
PathToks(T, p) ==
  FoldLeft(LAMBDA st, i : IF T[i][1] = "o" THEN Append(st, i)
                          ELSE IF T[i][1] = "c" THEN SubSeq(st, 1, Len(st) - 1)
                          ELSE st,
           <<>>, [i \in 1..p |-> i])

DepthAt(T, p) == Len(PathToks(T, p))

\* p lies between the two halves of one character
SplitsChar(T, p) == p > 0 /\ p < Len(T) /\ T[p+1][1] = "x" /\ T[p+1][2] \in LowUnits

Resolvable(T, p) == p <= Len(T) /\ ~SplitsChar(T, p)

\* index of the token that closes the node opened at token i
CloseOf(T, i) ==
  FoldLeft(LAMBDA st, j :
             IF st.at > 0 THEN st
             ELSE IF T[j][1] = "o" THEN [st EXCEPT !.d = @ + 1]
             ELSE IF T[j][1] = "c" THEN (IF st.d = 0 THEN [st EXCEPT !.at = j] ELSE [st EXCEPT !.d = @ - 1])
             ELSE st,
           [d |-> 0, at |-> 0], [j \in 1..(Len(T) - i) |-> i + j]).at

\* content start and end of the node at depth d around p; path is PathToks(T, p)
StartOf(path, d) == IF d = 0 THEN 0 ELSE path[d]
EndOf(T, path, d) == IF d = 0 THEN Len(T) ELSE CloseOf(T, path[d]) - 1

\* the depth up to which p and q have the same parent nodes
SharedDepth(T, p, q) ==
  LET a == PathToks(T, p)
      b == PathToks(T, q)
      S == {d \in 0..Len(a) : d <= Len(b) /\ \A k \in 1..d : a[k] = b[k]}
  IN CHOOSE d \in S : \A e \in S : e <= d

-----------------------------------------------------------------------------
(* The tree view: child indices and nodes around a position                   *)

\* offsets of the ends of the children in the parent's content
Ends(cs) ==
  FoldLeft(LAMBDA acc, n : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + Size(n)), <<>>, cs)

\* the child index at offset off: how many children end at or before it
IndexAt(ends, off) == Cardinality({i \in 1..Len(ends) : ends[i] <= off})

\* for every depth [node, index, offset of that child] - outermost first
RECURSIVE TreePath(_, _)
TreePath(n, off) ==
  LET ends == Ends(n.c)
      ix   == IndexAt(ends, off)
      st   == IF ix = 0 THEN 0 ELSE ends[ix]
      here == [node |-> n, index |-> ix, rest |-> off - st, off |-> off]
  IN IF off = st \/ n.c[ix + 1].t = "text" THEN << here >>
     ELSE << here >> \o TreePath(n.c[ix + 1], off - st - 1)

CutText(n, i, j) == [n EXCEPT !.s = SubSeq(@, i + 1, j)]

\* Everything resolving position p of node n reports. addr: the child indices that lead to
\* the nodes; nb, na: sequences of zero or one node before and after p.
ResolveInfo(n, T, p) ==
  LET path == PathToks(T, p)
      dep  == Len(path)
      tp   == TreePath(n, p)
      last == tp[Len(tp)]
      cs   == last.node.c
      toff == last.rest
  IN [depth  |-> dep,
      index  |-> [d \in 1..(dep + 1) |-> tp[d].index],
      indexAfter |-> [d \in 1..(dep + 1) |->
                        IF d = dep + 1 /\ toff = 0 THEN tp[d].index ELSE tp[d].index + 1],
      start  |-> [d \in 1..(dep + 1) |-> StartOf(path, d - 1)],
      end    |-> [d \in 1..(dep + 1) |-> EndOf(T, path, d - 1)],
      before |-> [d \in 1..dep |-> path[d] - 1],
      after  |-> [d \in 1..dep |-> CloseOf(T, path[d])],
      textOffset |-> toff,
      nb |-> IF toff > 0 THEN << CutText(cs[last.index + 1], 0, toff) >>
             ELSE IF last.index = 0 THEN <<>> ELSE << cs[last.index] >>,
      na |-> IF last.index = Len(cs) THEN <<>>
             ELSE IF toff > 0 THEN << CutText(cs[last.index + 1], toff, Len(cs[last.index + 1].s)) >>
             ELSE << cs[last.index + 1] >>]
=============================================================================
