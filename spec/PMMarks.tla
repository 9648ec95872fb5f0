------------------------------ MODULE PMMarks -------------------------------
(* Mark sets: sequences of [k, a] in the order of MarkRank, one per type.     *)
EXTENDS PMDoc

HasMark(ms, m) == \E i \in 1..Len(ms) : ms[i] = m
HasMarkType(ms, k) == \E i \in 1..Len(ms) : ms[i].k = k

\* the canonical sequence of a set of marks with distinct types
RECURSIVE Sorted(_)
Sorted(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : MarkRank[x.k] <= MarkRank[y.k]
       IN << m >> \o Sorted(S \ {m})

MarksIn(ms) == {ms[i] : i \in 1..Len(ms)}

AddMarkTo(ms, m)      == Sorted({x \in MarksIn(ms) : x.k # m.k} \cup {m})
RemoveMarkFrom(ms, m) == Sorted(MarksIn(ms) \ {m})

\* a list of marks is a mark set iff no type occurs twice
DistinctTypes(list) == \A i, j \in 1..Len(list) : list[i].k = list[j].k => i = j
FromList(list) == Sorted(MarksIn(list))
=============================================================================
