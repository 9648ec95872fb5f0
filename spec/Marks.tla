-------------------------------- MODULE Marks ---------------------------------
(* Mark sets: every set that adding and removing marks leads to. The library  *)
(* keeps a vector ordered by mark type; what is wanted is a set with at most  *)
(* one mark of each type.                                                     *)
EXTENDS PMAlgo

mk(k) == [k |-> k, a |-> <<>>]
Link(h, t) == [k |-> "link", a |-> << <<"href", "s", h>>, <<"title", "s", t>> >>]
Pool == {mk("strong"), mk("em"), mk("code"), Link("a", ""), Link("b", ""), Link("a", "t")}

VARIABLES vec,   \* the library's vector
          set    \* the set it stands for
Init == vec = <<>> /\ set = {}
PutIn(m) == /\ vec' = VecAdd(vec, m)
          /\ set' = {x \in set : x.k # m.k} \cup {m}
TakeOut(m) == /\ vec' = VecRemove(vec, m)
             /\ set' = set \ {m}
Next == \E m \in Pool : PutIn(m) \/ TakeOut(m)
Spec == Init /\ [][Next]_<<vec, set>>

Same == MarksIn(vec) = set /\ Len(vec) = Cardinality(set) /\ CanonicalMarks(vec)
Functional ==
  \A m \in Pool :
    /\ AddMarkTo(vec, m) = VecAdd(vec, m) /\ RemoveMarkFrom(vec, m) = VecRemove(vec, m)
    /\ HasMark(VecAdd(vec, m), m) /\ ~HasMark(VecRemove(vec, m), m)
    /\ VecAdd(VecAdd(vec, m), m) = VecAdd(vec, m)
    /\ VecRemove(VecRemove(vec, m), m) = VecRemove(vec, m)
    /\ ~HasMark(vec, m) => VecRemove(vec, m) = vec
    /\ ~HasMarkType(vec, m.k) => VecRemove(VecAdd(vec, m), m) = vec
    /\ \A n \in Pool : n.k # m.k => VecAdd(VecAdd(vec, m), n) = VecAdd(VecAdd(vec, n), m)
\* the order in which marks are listed does not matter
Listed == \A p \in Permutations(1..Len(vec)) : FromList([i \in 1..Len(vec) |-> vec[p[i]]]) = vec
\* none, one or the other of each
Reached == TLCGet("distinct") = 2 * 2 * 2 * 4
=============================================================================
