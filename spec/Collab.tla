-------------------------------- MODULE Collab --------------------------------
(* Collaborative editing: an authority gives the accepted steps an order; the *)
(* replicas get them in that order, each at its own pace, and apply them to   *)
(* their own documents. Checked exhaustively over small documents; in         *)
(* simulation it makes up the behaviours that are replayed in the library.    *)
EXTENDS PMStep, PMTraverse, Small, Json, IOUtils

MaxSize == atoi(IOEnv.MAX)        \* documents up to this inner size
MaxVer  == atoi(IOEnv.VERSIONS)   \* so many steps
MaxReps == atoi(IOEnv.REPS)
Depth   == atoi(IOEnv.DEPTH)      \* simulation: actions in a behaviour
Random  == IOEnv.RANDOM = "yes"

VARIABLES first,  \* the document it starts from
          cur,    \* the authority's document
          log,    \* the steps it has accepted
          reps,   \* the replicas: [ver, doc]
          acts    \* simulation: what was done
vars == <<first, cur, log, reps, acts>>

Apply(s, d) == StepOutcome(d, Inside(d), s)
After(s, d) == WithToks(d, Apply(s, d).toks)

-----------------------------------------------------------------------------
(* Steps: a few for every small document; or any at random                    *)
Mark(k) == [k |-> k, a |-> <<>>]
Closed(c) == [c |-> c, os |-> 0, oe |-> 0]
Par(c) == NodeN("paragraph", c)
FewSlices ==
  { EmptySlice, Closed(<< TextN(<<"a">>, NoM) >>), Closed(<< TextN(<<"H61", "L522">>, NoM) >>), Closed(<< LeafN("horizontal_rule") >>),
    [c |-> << Par(<<>>), Par(<<>>) >>, os |-> 1, oe |-> 1], Closed(<< NodeN("blockquote", << Par(<<>>) >>) >>) }
PosOf(d) == {p \in 0..Len(Inside(d)) : Resolvable(Inside(d), p)}
FewSteps(d) ==
  UNION {{[st |-> "replace", from |-> a, to |-> b, slice |-> s, structure |-> FALSE] :
            b \in {b \in PosOf(d) : b >= a}, s \in FewSlices} : a \in PosOf(d)}
  \cup {[st |-> "addMark", from |-> 0, to |-> Len(Inside(d)), mark |-> Mark("em")]}

Pick(S) == RandomElement(S)
From_(P, a) == {p \in P : p >= a}
MarkPool == {Mark("em"), Mark("strong"), Mark("code"), [k |-> "link", a |-> << <<"href", "s", "/u">>, <<"title", "s", "">> >>]}
Texts == {<<"x">>, <<"y", "z">>, <<"H61", "L522">>}
SomeSlices(d, T) ==
  LET P == PosOf(d)
      a == Pick(P)
      b == Pick(From_(P, a))
  IN Pick({ <<EmptySlice>>, <<SliceOf(T, a, b, FALSE)>>, <<SliceOf(T, a, b, FALSE)>>, <<SliceOf(T, a, b, TRUE)>>,
            <<Closed(<< TextN(Pick(Texts), Pick({NoM, << Mark("em") >>})) >>)>>,
            <<[c |-> << Par(<<>>), Par(<<>>) >>, os |-> 1, oe |-> 1]>>,
            <<[c |-> << NodeN("list_item", << Par(<<>>) >>), NodeN("list_item", << Par(<<>>) >>) >>, os |-> 2, oe |-> 2]>>,
            <<[c |-> << NodeN("heading", << TextN(<<"h">>, NoM) >>) >>, os |-> Pick({0, 1}), oe |-> Pick({0, 1})]>>,
            <<Closed(<< NodeN("blockquote", << Par(<< TextN(<<"q">>, NoM) >>) >>) >>)>>,
            <<Closed(<< NodeN("bullet_list", << NodeN("list_item", << Par(<<>>) >>) >>) >>)>>,
            <<Closed(<< LeafN("hard_break") >>)>>, <<Closed(<< LeafN("horizontal_rule") >>)>>, <<Closed(<< ImageN >>)>> })[1]
Wrappers ==
  { <<EmptySlice, 0>>, <<Closed(<< NodeN("blockquote", <<>>) >>), 1>>, <<Closed(<< NodeN("heading", <<>>) >>), 1>>,
    <<Closed(<< Par(<<>>) >>), 1>>, <<Closed(<< NodeN("code_block", <<>>) >>), 1>>,
    <<Closed(<< NodeN("bullet_list", << NodeN("list_item", <<>>) >>) >>), 2>>,
    <<Closed(<< NodeN("ordered_list", << NodeN("list_item", <<>>) >>) >>), 2>> }
\* around a random node, or anything
SomeAround(d, T) ==
  LET P == PosOf(d)
      sp == Spans(d.c, 0, <<>>)
      x == Pick({sp[i] : i \in 1..Len(sp)})
      w == Pick(Wrappers)
      a == Pick(P) b == Pick(From_(P, a)) c == Pick(From_(P, b)) e == Pick(From_(P, c))
      g == Pick({ <<x.from, x.from, x.to, x.to>>, <<x.from, x.from + 1, x.to - 1, x.to>>, <<a, b, c, e>> })
  IN [st |-> "replaceAround", from |-> g[1], to |-> g[4], gapFrom |-> g[2], gapTo |-> Pick({Lesser(g[3], g[4]), g[3]}),
      slice |-> w[1], insert |-> w[2], structure |-> Pick({TRUE, FALSE, FALSE})]
SomeStep(d, T, i) ==
  LET P == PosOf(d)
      a == Pick(P)
      b == Pick(Pick({{a}, {p \in From_(P, a) : p < a + 4}, From_(P, a)}))
      kind == Pick({1, 2, 3, 4, 5, 6, 7, 8})
  IN CASE kind <= 4 -> [st |-> "replace", from |-> a, to |-> b, slice |-> SomeSlices(d, T), structure |-> Pick({TRUE, FALSE, FALSE, FALSE})]
       [] kind = 5 -> [st |-> "addMark", from |-> a, to |-> b, mark |-> Pick(MarkPool)]
       [] kind = 6 -> [st |-> "removeMark", from |-> a, to |-> b, mark |-> Pick(MarkPool)]
       [] OTHER -> SomeAround(d, T)
\* of several, one that is accepted if there is any
RandomSteps(d) ==
  LET T == Inside(d)
      some == {s \in {SomeStep(d, T, i) : i \in 1..10} : s.st = "replaceAround" => s.gapFrom <= s.gapTo}
      good == {s \in some : s.from <= s.to /\ Apply(s, d).ok /\ Len(Apply(s, d).toks) <= MaxSize}
  IN IF some = {} THEN {[st |-> "replace", from |-> 0, to |-> 0, slice |-> EmptySlice, structure |-> FALSE]}
     ELSE IF good = {} \/ Pick(1..8) = 1 THEN {Pick(some)} ELSE {Pick(good)}

-----------------------------------------------------------------------------
Did(a) == acts' = IF Random THEN Append(acts, a) ELSE acts

\* a step is submitted: accepted, it becomes the next version; rejected, nothing happens
Submit(s) ==
  LET out == Apply(s, cur) IN
  /\ Len(out.toks) <= MaxSize
  /\ IF out.ok THEN cur' = WithToks(cur, out.toks) /\ log' = Append(log, s)
     ELSE Random /\ UNCHANGED <<cur, log>>
  /\ UNCHANGED <<first, reps>>
  /\ Did([a |-> "submit", step |-> s])
Deliver(r) ==
  /\ reps[r].ver < Len(log)
  /\ LET s == log[reps[r].ver + 1]
     IN reps' = [reps EXCEPT ![r] = [ver |-> @.ver + 1, doc |-> After(s, @.doc)]]
  /\ UNCHANGED <<first, cur, log>>
  /\ Did([a |-> "deliver", r |-> r])
Join ==
  /\ Len(reps) < MaxReps
  /\ reps' = Append(reps, [ver |-> Len(log), doc |-> cur])
  /\ UNCHANGED <<first, cur, log>>
  /\ Did([a |-> "join"])

\* simulation: the document to start from
Begin ==
  /\ Random /\ first = <<>>
  /\ \E n \in {RandomElement(1..3)} :
     \E d \in {NodeN("doc", FoldLeft(LAMBDA acc, i : acc \o RandomElement(Docs(6, 2)).c, <<>>, [i \in 1..n |-> i]))} :
       first' = <<d>> /\ cur' = d /\ reps' = [i \in 1..2 |-> [ver |-> 0, doc |-> d]]
  /\ UNCHANGED <<log, acts>>

Init ==
  /\ log = <<>> /\ acts = <<>>
  /\ IF Random THEN first = <<>> /\ cur = NodeN("doc", <<>>) /\ reps = <<>>
     ELSE /\ cur \in Docs(3, 1)
          /\ first = <<cur>>
          /\ reps = << [ver |-> 0, doc |-> cur] >>
Next ==
  IF Random
  THEN IF first = <<>> THEN Begin
       ELSE /\ Len(acts) < Depth
            /\ \E k \in {RandomElement(1..10)} :
                 LET late == {r \in 1..Len(reps) : reps[r].ver < Len(log)} IN
                 IF k >= 9 /\ Len(reps) < MaxReps THEN Join
                 ELSE IF k >= 6 /\ late # {} THEN \E r \in {RandomElement(late)} : Deliver(r)
                 ELSE \E s \in RandomSteps(cur) : Submit(s)
  ELSE \/ Len(log) < MaxVer /\ \E s \in FewSteps(cur) : Submit(s)
       \/ \E r \in 1..Len(reps) : Deliver(r)
       \/ Join
Fair == WF_vars(\E r \in 1..Len(reps) : Deliver(r))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
\* the document of every version
Version_(v) == FoldLeft(LAMBDA d, i : After(log[i], d), first[1], [i \in 1..v |-> i])

AllValid == first # <<>> => Valid(cur) /\ Normal(cur)
\* a replica holds the version it has got to, however it got there
Consistent == \A r \in 1..Len(reps) : reps[r].ver <= Len(log) /\ reps[r].doc = Version_(reps[r].ver)
InStep == \A r, q \in 1..Len(reps) : reps[r].ver = reps[q].ver => reps[r].doc = reps[q].doc
Current_ == first # <<>> => cur = Version_(Len(log))
\* every replica catches up in the end
Converges == <>[](\A r \in 1..Len(reps) : reps[r].doc = cur)

\* simulation: write down the behaviours
Written ==
  (Random /\ Len(acts) = Depth) =>
    Serialize(ToJson([doc |-> first[1], acts |-> acts]) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
