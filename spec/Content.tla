------------------------------- MODULE Content --------------------------------
(* Content expressions: the automaton of the schema, run along every sequence *)
(* of node types up to a length, against the words of the expression.         *)
EXTENDS PMAlgo, IOUtils

MaxLen == atoi(IOEnv.MAX)
VARIABLES t, ts, q
Init == t \in NodeTypes /\ ts = <<>> /\ q = Start(t)
Next == /\ Len(ts) < MaxLen
        /\ \E x \in NodeTypes : ts' = Append(ts, x) /\ q' = Move(q, x)
        /\ t' = t
Spec == Init /\ [][Next]_<<t, ts, q>>

\* the state says what can still become a word and what is one
Agree == /\ (q = "fail") = ~Viable(Expr[t], ts)
         /\ Final(q) = Matches(Expr[t], ts)
\* what is dead stays dead; what is viable can be completed by at most one more node
Dead == q = "fail" => \A x \in NodeTypes : Move(q, x) = "fail"
Live == q # "fail" => Final(q) \/ \E x \in NodeTypes : Final(Move(q, x))
\* replacing children is judged as if the whole new content were read from the start
Split == \A i \in 0..Len(ts) :
           Matches(Expr[t], ts) =>
             Viable(Expr[t], SubSeq(ts, 1, i))
\* compatible: some type can start the content of both
Join == \A u \in NodeTypes :
          /\ Compatible(t, u) = Compatible(u, t)
          /\ Compatible(t, u) = (t = u \/ \E x \in NodeTypes : Move(Start(t), x) # "fail" /\ Move(Start(u), x) # "fail")
=============================================================================
