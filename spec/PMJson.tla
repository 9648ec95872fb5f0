------------------------------- MODULE PMJson -------------------------------
(* ProseMirror's JSON form of nodes, marks, slices and steps.                 *)
(*                                                                            *)
(* A JSON value is a record [j, s, u, k, v]: its kind ("o" object, "a" array, *)
(* "s" string, "n" number, "b" boolean, "null"), the scalar as a string and,  *)
(* for strings, as UTF-16 units, the keys of an object and the values.        *)
(* Numbers are kept as decimal strings.                                       *)
(*                                                                            *)
(* Each reader gives a sequence: empty if the JSON is rejected, otherwise     *)
(* with the one value it stands for.                                          *)
EXTENDS PMMarks

Has(o, key) == \E i \in 1..Len(o.k) : o.k[i] = key
Get(o, key) == o.v[CHOOSE i \in 1..Len(o.k) : o.k[i] = key]

\* a required scalar of kind j
Scalar(o, key, j) ==
  IF Has(o, key) /\ Get(o, key).j = j THEN << Get(o, key).s >> ELSE <<>>
\* a string that may be missing or null
OptString(o, key) ==
  IF ~Has(o, key) \/ Get(o, key).j = "null" THEN << "" >> ELSE Scalar(o, key, "s")
\* a number (boolean) that may be missing
OptNumber(o, key) == IF Has(o, key) THEN Scalar(o, key, "n") ELSE << "0" >>
OptBool(o, key) == IF Has(o, key) THEN Scalar(o, key, "b") ELSE << "false" >>

\* all of a sequence of readings, or nothing
All(rs) ==
  IF \A i \in 1..Len(rs) : Len(rs[i]) = 1 THEN << [i \in 1..Len(rs) |-> rs[i][1]] >> ELSE <<>>

-----------------------------------------------------------------------------
\* attributes: for each its name, kind and whether it may be missing or null
AttrSpec == [t \in NodeTypes |->
  CASE t = "heading"      -> << <<"level", "n", FALSE>> >>
    [] t = "code_block"   -> << <<"params", "s", FALSE>> >>
    [] t = "bullet_list"  -> << <<"tight", "b", FALSE>> >>
    [] t = "ordered_list" -> << <<"order", "n", FALSE>>, <<"tight", "b", FALSE>> >>
    [] t = "image"        -> << <<"alt", "s", TRUE>>, <<"src", "s", FALSE>>, <<"title", "s", TRUE>> >>
    [] OTHER              -> <<>>]
LinkSpec == << <<"href", "s", FALSE>>, <<"title", "s", TRUE>> >>

\* the attributes of a node or mark, as <<name, kind, value>>
ReadAttrs(o, spec) ==
  IF spec = <<>> THEN << <<>> >>
  ELSE IF ~Has(o, "attrs") \/ Get(o, "attrs").j # "o" THEN <<>>
  ELSE LET a == Get(o, "attrs")
           one(x) == LET r == IF x[3] THEN OptString(a, x[1]) ELSE Scalar(a, x[1], x[2])
                     IN IF r = <<>> THEN <<>> ELSE << <<x[1], x[2], r[1]>> >>
       IN All([i \in 1..Len(spec) |-> one(spec[i])])

ReadMark(o) ==
  IF o.j # "o" \/ Scalar(o, "type", "s") = <<>> THEN <<>>
  ELSE LET k == Get(o, "type").s IN
       IF k \notin {MarkTypes[i] : i \in 1..Len(MarkTypes)} THEN <<>>
       ELSE LET a == ReadAttrs(o, IF k = "link" THEN LinkSpec ELSE <<>>)
            IN IF a = <<>> THEN <<>> ELSE << [k |-> k, a |-> a[1]] >>

\* a list of marks is a set: at most one of each type, in any order
ReadMarks(o) ==
  IF ~Has(o, "marks") THEN << <<>> >>
  ELSE LET l == Get(o, "marks") IN
       IF l.j # "a" THEN <<>>
       ELSE LET ms == All([i \in 1..Len(l.v) |-> ReadMark(l.v[i])])
            IN IF ms = <<>> \/ ~DistinctTypes(ms[1]) THEN <<>> ELSE << FromList(ms[1]) >>

RECURSIVE ReadNode(_)
ReadNodes(l) == IF l.j # "a" THEN <<>> ELSE All([i \in 1..Len(l.v) |-> ReadNode(l.v[i])])
ReadNode(o) ==
  IF o.j # "o" \/ Scalar(o, "type", "s") = <<>> THEN <<>>
  ELSE LET t == Get(o, "type").s IN
       IF t \notin NodeTypes THEN <<>>
       ELSE IF t = "text"
       THEN LET m == ReadMarks(o) IN
            IF m = <<>> \/ Scalar(o, "text", "s") = <<>> THEN <<>>
            ELSE << MkNode("text", <<>>, Get(o, "text").u, m[1], <<>>) >>
       ELSE LET a == ReadAttrs(o, AttrSpec[t])
                c == IF t \in LeafTypes \/ ~Has(o, "content") THEN << <<>> >>
                     ELSE ReadNodes(Get(o, "content"))
            IN IF a = <<>> \/ c = <<>> THEN <<>> ELSE << MkNode(t, a[1], <<>>, <<>>, c[1]) >>

ReadSlice(o) ==
  IF o.j # "o" \/ ~Has(o, "content") THEN <<>>
  ELSE LET c == ReadNodes(Get(o, "content"))
           d == All(<< OptNumber(o, "openStart"), OptNumber(o, "openEnd") >>)
       IN IF c = <<>> \/ d = <<>> THEN <<>> ELSE << [c |-> c[1], os |-> d[1][1], oe |-> d[1][2]] >>

NoSlice == [c |-> <<>>, os |-> "0", oe |-> "0"]
OptSlice(o) == IF Has(o, "slice") THEN ReadSlice(Get(o, "slice")) ELSE << NoSlice >>

ReadStep(o) ==
  IF o.j # "o" \/ Scalar(o, "stepType", "s") = <<>> THEN <<>>
  ELSE LET st == Get(o, "stepType").s IN
       CASE st = "replace" ->
              LET n == All(<< Scalar(o, "from", "n"), Scalar(o, "to", "n"), OptBool(o, "structure") >>)
                  s == OptSlice(o)
              IN IF n = <<>> \/ s = <<>> THEN <<>>
                 ELSE << [st |-> st, from |-> n[1][1], to |-> n[1][2], slice |-> s[1],
                          structure |-> (n[1][3] = "true")] >>
         [] st = "replaceAround" ->
              LET n == All(<< Scalar(o, "from", "n"), Scalar(o, "to", "n"), Scalar(o, "gapFrom", "n"),
                              Scalar(o, "gapTo", "n"), Scalar(o, "insert", "n"), OptBool(o, "structure") >>)
                  s == OptSlice(o)
              IN IF n = <<>> \/ s = <<>> THEN <<>>
                 ELSE << [st |-> st, from |-> n[1][1], to |-> n[1][2], gapFrom |-> n[1][3],
                          gapTo |-> n[1][4], insert |-> n[1][5], slice |-> s[1],
                          structure |-> (n[1][6] = "true")] >>
         [] st \in {"addMark", "removeMark"} ->
              LET n == All(<< Scalar(o, "from", "n"), Scalar(o, "to", "n") >>)
                  m == IF Has(o, "mark") THEN ReadMark(Get(o, "mark")) ELSE <<>>
              IN IF n = <<>> \/ m = <<>> THEN <<>>
                 ELSE << [st |-> st, from |-> n[1][1], to |-> n[1][2], mark |-> m[1]] >>
         [] OTHER -> <<>>

Read(kind, o) ==
  CASE kind = "node"  -> ReadNode(o)
    [] kind = "mark"  -> ReadMark(o)
    [] kind = "slice" -> ReadSlice(o)
    [] kind = "step"  -> ReadStep(o)

-----------------------------------------------------------------------------
(* The canonical JSON of a value; fields in alphabetical order. What ProseMirror *)
(* leaves out is left out: empty content, no marks, defaults.                 *)
JStr(s)    == [j |-> "s", s |-> s, u |-> <<>>, k |-> <<>>, v |-> <<>>]
JText(u)   == [j |-> "s", s |-> "", u |-> u, k |-> <<>>, v |-> <<>>]
JNum(s)    == [j |-> "n", s |-> s, u |-> <<>>, k |-> <<>>, v |-> <<>>]
JBool(b)   == [j |-> "b", s |-> IF b THEN "true" ELSE "false", u |-> <<>>, k |-> <<>>, v |-> <<>>]
JNull      == [j |-> "null", s |-> "", u |-> <<>>, k |-> <<>>, v |-> <<>>]
JArr(v)    == [j |-> "a", s |-> "", u |-> <<>>, k |-> <<>>, v |-> v]
JObj(kv)   == [j |-> "o", s |-> "", u |-> <<>>, k |-> [i \in 1..Len(kv) |-> kv[i][1]], v |-> [i \in 1..Len(kv) |-> kv[i][2]]]
Field(cond, key, val) == IF cond THEN << <<key, val>> >> ELSE <<>>

WriteAttrs(a) ==
  JObj([i \in 1..Len(a) |->
          << a[i][1], CASE a[i][2] = "n" -> JNum(a[i][3]) [] a[i][2] = "b" -> JBool(a[i][3] = "true") [] OTHER -> JStr(a[i][3]) >>])
WriteMark(m) == JObj(Field(m.a # <<>>, "attrs", WriteAttrs(m.a)) \o << <<"type", JStr(m.k)>> >>)

RECURSIVE WriteNode(_)
WriteNodes(cs) == JArr([i \in 1..Len(cs) |-> WriteNode(cs[i])])
WriteNode(n) ==
  JObj(Field(n.a # <<>>, "attrs", WriteAttrs(n.a))
       \o Field(n.c # <<>>, "content", WriteNodes(n.c))
       \o Field(n.m # <<>>, "marks", JArr([i \in 1..Len(n.m) |-> WriteMark(n.m[i])]))
       \o Field(n.t = "text", "text", JText(n.s))
       \o << <<"type", JStr(n.t)>> >>)
WriteSlice(s) ==
  JObj(<< <<"content", WriteNodes(s.c)>> >>
       \o Field(s.oe # "0", "openEnd", JNum(s.oe)) \o Field(s.os # "0", "openStart", JNum(s.os)))
WriteStep(s) ==
  IF s.st \in {"addMark", "removeMark"}
  THEN JObj(<< <<"from", JNum(s.from)>>, <<"mark", WriteMark(s.mark)>>, <<"stepType", JStr(s.st)>>, <<"to", JNum(s.to)>> >>)
  ELSE JObj(<< <<"from", JNum(s.from)>> >>
            \o (IF s.st = "replace" THEN <<>>
                ELSE << <<"gapFrom", JNum(s.gapFrom)>>, <<"gapTo", JNum(s.gapTo)>>, <<"insert", JNum(s.insert)>> >>)
            \o Field(s.slice # NoSlice, "slice", WriteSlice(s.slice))
            \o << <<"stepType", JStr(s.st)>> >>
            \o Field(s.structure, "structure", JBool(TRUE))
            \o << <<"to", JNum(s.to)>> >>)
Write(kind, x) ==
  CASE kind = "node"  -> WriteNode(x)
    [] kind = "mark"  -> WriteMark(x)
    [] kind = "slice" -> WriteSlice(x)
    [] kind = "step"  -> WriteStep(x)

-----------------------------------------------------------------------------
\* nothing but the fields ProseMirror knows, and all of the attributes
KeysIn(o, S) == \A i \in 1..Len(o.k) : o.k[i] \in S
SpecNames(spec) == {spec[i][1] : i \in 1..Len(spec)}
CleanAttrs(o, spec) ==
  (spec # <<>>) => LET a == Get(o, "attrs") IN
                   /\ KeysIn(a, SpecNames(spec))
                   /\ \A i \in 1..Len(spec) : Has(a, spec[i][1]) /\ Get(a, spec[i][1]).j = spec[i][2]

CleanMark(o) ==
  LET spec == IF Get(o, "type").s = "link" THEN LinkSpec ELSE <<>>
  IN /\ KeysIn(o, {"type"} \cup (IF spec = <<>> THEN {} ELSE {"attrs"}))
     /\ CleanAttrs(o, spec)

RECURSIVE CleanNode(_)
CleanNode(o) ==
  LET t == Get(o, "type").s
      spec == AttrSpec[t]
  IN /\ KeysIn(o, {"type"} \cup (IF spec = <<>> THEN {} ELSE {"attrs"})
                   \cup (IF t = "text" THEN {"text", "marks"}
                         ELSE IF t \in LeafTypes THEN {} ELSE {"content"}))
     /\ CleanAttrs(o, spec)
     /\ t = "text" /\ Has(o, "marks") =>
          \A i \in 1..Len(Get(o, "marks").v) : CleanMark(Get(o, "marks").v[i])
     /\ t \notin LeafTypes /\ Has(o, "content") =>
          \A i \in 1..Len(Get(o, "content").v) : CleanNode(Get(o, "content").v[i])

CleanSlice(o) ==
  /\ KeysIn(o, {"content", "openStart", "openEnd"})
  /\ \A i \in 1..Len(Get(o, "content").v) : CleanNode(Get(o, "content").v[i])

CleanStep(o) ==
  LET st == Get(o, "stepType").s
  IN /\ KeysIn(o, {"stepType", "from", "to"}
                   \cup (CASE st = "replace" -> {"slice", "structure"}
                           [] st = "replaceAround" -> {"slice", "structure", "gapFrom", "gapTo", "insert"}
                           [] OTHER -> {"mark"}))
     /\ Has(o, "slice") => CleanSlice(Get(o, "slice"))
     /\ Has(o, "mark") => CleanMark(Get(o, "mark"))

Clean(kind, o) ==
  CASE kind = "node"  -> CleanNode(o)
    [] kind = "mark"  -> CleanMark(o)
    [] kind = "slice" -> CleanSlice(o)
    [] kind = "step"  -> CleanStep(o)
=============================================================================
