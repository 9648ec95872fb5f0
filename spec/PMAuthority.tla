----------------------------- MODULE PMAuthority ----------------------------
(* The collaborative-editing authority: it owns the versions of a document,   *)
(* each made from the one before by one accepted step. Replicas hold one of   *)
(* the versions and get the steps in order.                                   *)
(*                                                                            *)
(* State: [hist, ver]: the documents by version (hist[1] is the first), and   *)
(* for every replica how many steps it has applied.                           *)
EXTENDS Naturals, Sequences

NewAuthority(d, reps) == [hist |-> << d >>, ver |-> [r \in 1..reps |-> 0]]
Version(a) == Len(a.hist) - 1
Current(a) == a.hist[Len(a.hist)]

\* replicas that hold the current document
UpToDate(a) == {r \in 1..Len(a.ver) : a.ver[r] = Version(a)}

Publish(a, d) == [a EXCEPT !.hist = Append(@, d)]
AddReplica(a) == [a EXCEPT !.ver = Append(@, Version(a))]
CanDeliver(a, r) == r \in 1..Len(a.ver) /\ a.ver[r] < Version(a)
NextVersion(a, r) == a.hist[a.ver[r] + 2]
Deliver(a, r) == [a EXCEPT !.ver[r] = @ + 1]
=============================================================================
