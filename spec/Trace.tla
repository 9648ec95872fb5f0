------------------------------- MODULE Trace --------------------------------
(* Checks recorded sessions with the library against the specification.       *)
(*                                                                            *)
(* The trace file has one session per line: a document and the calls that     *)
(* were observed, in order, with their arguments and results. The state is    *)
(* the session, how many of its calls are consumed, the current document and  *)
(* what else the property has to remember. A call that the specification does *)
(* not allow makes "bad" non-empty.                                           *)
EXTENDS PMStep, PMTraverse, PMJson, PMMarkdown, PMExpress, PMAuthority, PMBuild, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES s, k, doc, aux, bad
vars == <<s, k, doc, aux, bad>>

-----------------------------------------------------------------------------
\* ranges as given to the library
From(b) == CASE b[1] = "unbounded" -> 0 [] b[1] = "incl" -> b[2] [] b[1] = "excl" -> b[2] + 1
To(b, size) == CASE b[1] = "unbounded" -> size [] b[1] = "incl" -> b[2] + 1 [] b[1] = "excl" -> b[2]

IsOk(r)  == r.r = "ok"
IsErr(r) == r.r = "err"
Returned(r) == r.r \in {"ok", "err"}

\* node n has the inner tokens E, and is in normal form if nf
HasToks(n, like, E, nf) ==
  /\ n.t = like.t /\ n.a = like.a
  /\ Inside(n) = E
  /\ nf => NormalSeq(n.c)

\* a result as the specification gives it: the document, or a reason that holds
Agrees(out, res, like, nf) ==
  IF out.ok THEN IsOk(res) /\ HasToks(res.doc, like, out.toks, nf)
  ELSE IsErr(res) /\ \E w \in out.why : w[1] = res.kind[1] /\ w[2] = res.kind[2] /\ w[3] = res.kind[3]

-----------------------------------------------------------------------------
(* C01 *)
RECURSIVE AuditRow(_)
Row(n) ==
  << n.t, ToString(Size(n)), ToString(IF IsLeaf(n) THEN 0 ELSE SizeSeq(n.c)), ToString(Len(n.c)),
     IF IsText(n) THEN ToString(Len(n.s)) ELSE "-",
     << IsLeaf(n), IsText(n), IsBlockNode(n.t), IsInlineType(n.t), IsBlockType(n.t), IsInlineType(n.t), TRUE >>,
     n.t >>
Rows(cs) == FoldLeft(LAMBDA acc, n : acc \o AuditRow(n), <<>>, cs)
AuditRow(n) == << Row(n) >> \o Rows(n.c)

JudgeAudit(ev) == ev.r = "ok" /\ ev.info = AuditRow(ev.node)
JudgeAuditFrag(ev) ==
  ev.r = "ok" /\ ev.info = Rows(ev.nodes)
  /\ ev.size = ToString(SizeSeq(ev.nodes)) /\ ev.count = ToString(Len(ev.nodes))

(* C02 *)
JudgeResolve(ev) ==
  LET T == Inside(doc)
      r == ev.res
  IN IF ~Resolvable(T, ev.p) THEN IsErr(r)
     ELSE /\ IsOk(r)
          /\ LET x == ResolveInfo(doc, T, ev.p)
                 d == x.depth
                 tp == TreePath(doc, ev.p)
                 str(f) == << "none" >> \o [i \in 1..d |-> ToString(f[i])] \o << ToString(ev.p) >>
             IN /\ r.depth = d /\ r.root /\ ~r.lost
                /\ r.addr = [i \in 1..d |-> tp[i].index]
                /\ r.index = x.index /\ r.indexAfter = x.indexAfter
                /\ r.start = x.start /\ r.end = x.end
                /\ r.before = str(x.before) /\ r.after = str(x.after)
                /\ r.textOffset = x.textOffset
                /\ r.nb = x.nb /\ r.na = x.na
                /\ \A i \in 1..Len(r.shared) : r.shared[i][2] = SharedDepth(T, ev.p, r.shared[i][1])

(* C03 *)
JudgeSlice(ev) ==
  LET T == Inside(doc)
      f == From(ev.lo)
      t == To(ev.hi, Len(T))
  IN IF f = t THEN IsOk(ev.res) /\ ev.res.slice = EmptySlice
     ELSE IF ~(Resolvable(T, f) /\ Resolvable(T, t)) THEN IsErr(ev.res)
     ELSE f < t =>
          /\ IsOk(ev.res)
          /\ LET x == SliceOf(T, f, t, ev.parents)
                 y == ev.res.slice
             IN y.os = x.os /\ y.oe = x.oe
                /\ (IF Normal(doc) THEN y.c = x.c ELSE ToksSeq(y.c) = ToksSeq(x.c))

JudgePutBack(ev) ==
  LET T == Inside(doc)
      f == From(ev.lo)
      t == To(ev.hi, Len(T))
  IN (f <= t /\ Resolvable(T, f) /\ Resolvable(T, t) /\ Valid(doc)) =>
       IsOk(ev.res) /\ HasToks(ev.res.doc, doc, T, Normal(doc))

(* C04 *)
JudgeReplace(ev) ==
  LET T == Inside(doc)
  IN Agrees(ReplaceOutcome(doc, T, From(ev.lo), To(ev.hi, Len(T)), ev.slice), ev.res, doc,
            Normal(doc) /\ NormalSeq(ev.slice.c))

(* C05, C06 *)
SliceOfStep(st) == IF st.st \in {"replace", "replaceAround"} THEN st.slice ELSE EmptySlice
JudgeValid(ev) ==
  (Valid(doc) /\ (IF ev.step.st = "replaceAround" THEN EnclosedValidAround(ev.step.slice, ev.step.insert)
                  ELSE EnclosedValid(SliceOfStep(ev.step)))) =>
    Returned(ev.res) /\ (IsOk(ev.res) => Valid(ev.res.doc))
JudgeNormal(ev) ==
  (Normal(doc) /\ NormalSeq(SliceOfStep(ev.step).c)) =>
    Returned(ev.res) /\ (IsOk(ev.res) => Normal(ev.res.doc))

(* C07 *)
JudgeMark(ev) ==
  LET T == Inside(doc) IN
  Valid(doc) =>
    IF RangeOk(T, ev.step.from, ev.step.to)
    THEN IsOk(ev.res) /\ HasToks(ev.res.doc, doc, MarkedToks(doc, T, ev.step), FALSE)
    ELSE IsErr(ev.res)

(* C08: aux is the set *)
JudgeAdd(ev)    == IsOk(ev.res) /\ ev.res.set = AddMarkTo(aux, ev.mark)
JudgeRemove(ev) == IsOk(ev.res) /\ ev.res.set = RemoveMarkFrom(aux, ev.mark)
JudgeInto(ev)   == IsOk(ev.res) /\ ev.res.set = << ev.mark >>
JudgeList(ev)   == IF DistinctTypes(ev.list) THEN IsOk(ev.res) /\ ev.res.set = FromList(ev.list)
                   ELSE IsErr(ev.res)
JudgeQuery(ev)  == /\ CanonicalMarks(aux)
                   /\ \A i \in 1..Len(ev.marks) : ev.has[i] = HasMark(aux, ev.marks[i])
                   /\ \A i \in 1..Len(ev.eqs) : ev.eqs[i][2] = (MarksIn(ev.eqs[i][1]) = MarksIn(aux))

(* C09 *)
JudgeStructure(ev) ==
  LET T == Inside(doc)
      st == ev.step
      around == st.st = "replaceAround"
      known == Resolvable(T, st.from) /\ (around => Resolvable(T, st.gapTo))
      over == IF around THEN Overwrites(T, st.from, st.gapFrom) \/ Overwrites(T, st.gapTo, st.to)
              ELSE Overwrites(T, st.from, st.to)
      ends == Resolvable(T, st.to) /\ (around => Resolvable(T, st.gapFrom))
  IN (around => st.gapFrom <= st.gapTo) =>
     /\ Returned(ev.res)
     /\ IF ~known THEN IsErr(ev.res)
        ELSE IF over THEN IsErr(ev.res) /\ (ends => ev.res.kind[1] = IF around THEN "GapWouldOverwrite" ELSE "WouldOverwrite")
        ELSE ev.res = ev.off

(* C10 *)
JudgeAround(ev) ==
  LET T == Inside(doc)
      out == ReplaceAroundOutcome(doc, T, ev.step)
      gapErrors == {"GapNotFlat", "GapNotFit", "InsertContent"}
      why == {w[1] : w \in out.why}
  IN \/ ~out.ok /\ "GapWouldOverwrite" \in why
     \/ ev.step.gapFrom > ev.step.gapTo
     \/ IF out.ok
        THEN IsOk(ev.res) /\ HasToks(ev.res.doc, doc, out.toks, Normal(doc) /\ NormalSeq(ev.step.slice.c))
        ELSE /\ IsErr(ev.res)
             /\ IF "GapNotFlat" \in why THEN ev.res.kind[1] = "GapNotFlat"
                ELSE IF why \cap gapErrors # {} THEN ev.res.kind[1] \in gapErrors \ {"GapNotFlat"}
                ELSE ev.res.kind[1] \notin gapErrors

(* C11 *)
JudgeCall(ev) == ev.out \in {"ok", "err"}

(* C12: aux is the authority with its replicas (PMAuthority) *)
JudgeSubmit(ev) ==
  LET T == Inside(doc)
      out == StepOutcome(doc, T, ev.step)
      nf == Normal(doc) /\ NormalSeq(SliceOfStep(ev.step).c)
      ill == ev.step.st = "replaceAround" /\ ev.step.gapFrom > ev.step.gapTo   \* no defined effect
  IN /\ IF ill THEN Returned(ev.res)
        ELSE IF out.ok THEN IsOk(ev.res) /\ HasToks(ev.res.doc, doc, out.toks, nf) ELSE IsErr(ev.res)
     /\ Len(ev.at) = Cardinality(UpToDate(aux))
     /\ \A i \in 1..Len(ev.at) :
          IF IsOk(ev.res) THEN IsOk(ev.at[i]) /\ ev.at[i].doc = ev.res.doc ELSE IsErr(ev.at[i])
JudgeJoin(ev) == ev.doc = doc
JudgeDeliver(ev) == CanDeliver(aux, ev.rep) /\ IsOk(ev.res) /\ ev.res.doc = NextVersion(aux, ev.rep)

(* C13 *)
JudgeEncode(ev) ==
  /\ IsOk(ev.res)
  /\ Read(ev.kind, ev.res.json) = << ev.val >>
  /\ Clean(ev.kind, ev.res.json)
  /\ IsOk(ev.res.back) /\ ev.res.back.v = ev.val /\ ev.res.back.eq /\ ev.res.back.via
JudgeDecode(ev) ==
  LET x == Read(ev.kind, ev.json)
  IN IF x = <<>> THEN IsErr(ev.res) ELSE IsOk(ev.res) /\ ev.res.v = x[1]

(* C14 *)
MatchState(e, ts) == IF ~Viable(e, ts) THEN "fail" ELSE IF Matches(e, ts) THEN "end" ELSE "open"
JudgeMatch(ev) ==
  LET e == Expr[ev.t]
      ts == TypesOf(ev.kids)
      r == ev.res
      ok(m) == AllowsMarks(ev.t) \/ m = <<>>
  IN /\ IsOk(r)
     /\ r.steps = [i \in 1..Len(ts) |-> MatchState(e, SubSeq(ts, 1, i))]
     /\ r.whole = MatchState(e, ts) /\ r.start = MatchState(e, <<>>)
     /\ \A i \in 1..Len(r.ranges) : LET x == r.ranges[i] IN x[3] = MatchState(e, SubSeq(ts, x[1] + 1, x[2]))
     /\ r.valid = ValidChildren(ev.t, ev.kids)
     /\ r.marks = [i \in 1..Len(ts) |-> ok(ev.kids[i].m)]
JudgeCompat(ev) == ev.res = Compatible(ev.a, ev.b)
JudgeAllows(ev) == ev.res = AllowsMarks(ev.t)
JudgeMatchAt(ev) ==
  LET x == MatchState(Expr[ev.node.t], TypesOf(SubSeq(ev.node.c, 1, ev.i)))
  IN ev.res = (IF x = "fail" THEN "err" ELSE x)
JudgeCanReplace(ev) ==
  LET n == ev.node
      e == Expr[n.t]
      pre == SubSeq(n.c, 1, ev.from)
      post == SubSeq(n.c, ev.to + 1, Len(n.c))
  IN IF ~Viable(e, TypesOf(pre)) THEN ev.res = "err"
     ELSE ev.res = (IF /\ Matches(e, TypesOf(pre \o ev.with \o post))
                       /\ AllowsMarks(n.t) \/ \A i \in 1..Len(ev.with) : ev.with[i].m = <<>>
                    THEN "yes" ELSE "no")

(* C15 *)
JudgeVisit(ev) ==
  LET v == Visited(doc.c, ev.from, ev.to, {ev.declined[i] - ev.start : i \in 1..Len(ev.declined)})
  IN ev.res = "ok" /\ ev.seen = [i \in 1..Len(v) |-> << ev.start + v[i].from, v[i].node.t, v[i].addr >>]
JudgeText(ev) ==
  ev.res = "ok" /\ ev.out = ev.prefix \o TextBetween(doc.c, ev.from, ev.to, ev.sep, ev.leaf, ev.separated)
JudgeContent(ev) == ev.res = "ok" /\ ev.out = AllText(ev.node)

(* C16 *)
JudgeCut(ev) ==
  LET T == Inside(doc)
      x == CutToks(T, From(ev.lo), To(ev.hi, Len(T)))
  IN IsOk(ev.res) /\ HasToks(ev.res.doc, doc, x, Normal(doc))
JudgeFragCut(ev) ==
  LET T == Inside(doc)
      x == CutToks(T, From(ev.lo), To(ev.hi, Len(T)))
  IN IsOk(ev.res) /\ ToksSeq(ev.res.nodes) = x /\ (Normal(doc) => NormalSeq(ev.res.nodes))
JudgeCutAppend(ev) ==
  LET T == Inside(doc)
      x == CutToks(T, 0, ev.p) \o CutToks(T, ev.p, Len(T))
  IN /\ IsOk(ev.res) /\ ToksSeq(ev.res.nodes) = x
     /\ (Normal(doc) /\ DepthAt(T, ev.p) = 0) => ev.eq /\ ev.res.nodes = doc.c
JudgeAppend(ev) == IsOk(ev.res) /\ ev.res.nodes = AppendSeq(ev.a, ev.b)
JudgeReplaceChild(ev) == IsOk(ev.res) /\ ev.res.nodes = [doc.c EXCEPT ![ev.i + 1] = ev.node]
JudgeCopy(ev) ==
  IsOk(ev.res) /\ IF IsLeaf(ev.node) THEN ev.res.doc = ev.node
                  ELSE ev.res.doc = [ev.node EXCEPT !.c = ev.content] /\ ev.saw = ev.node.c
JudgeRemark(ev) ==
  IsOk(ev.res) /\ ev.res.doc = IF IsText(ev.node) THEN [ev.node EXCEPT !.m = ev.marks] ELSE ev.node
JudgeTextCut(ev) ==
  IsOk(ev.res) /\ ev.res.doc = CutText(ev.node, From(ev.lo), To(ev.hi, Len(ev.node.s)))
JudgeTextJoin(ev) == ev.out = ev.a \o ev.b /\ ev.len = Len(ev.out)

(* C17, C18 *)
JudgeRead(ev) ==
  LET x == FromEvents(ev.events)
  IN IF x.ok THEN IsOk(ev.res) /\ ev.res.doc = x.doc ELSE IsErr(ev.res)
JudgeWrite(ev) ==
  Expressible(ev.doc) =>
    /\ ev.res = "ok"
    /\ LET x == FromEvents(ev.events) IN x.ok /\ x.doc = ev.doc

(* C19 *)
JudgeUndo(ev) ==
  (Valid(doc) /\ Normal(doc) /\ NormalSeq(ev.slice.c) /\ IsOk(ev.res)) =>
    IsOk(ev.undo) /\ ev.undo.doc = doc /\ ev.undo.eq

JudgeUndoStep(ev) ==
  (Valid(doc) /\ Normal(doc) /\ NormalSeq(SliceOfStep(ev.step).c) /\ IsOk(ev.res)) =>
    IsOk(ev.undo) /\ ev.undo.doc = doc /\ ev.undo.eq

(* C20 *)
JudgeEqual(ev) == ev.res = IF ev.a = ev.b THEN "yes" ELSE "no"
JudgeConstruct(ev) ==
  LET n == Built(ev.how, ev.arg, ev.text, ev.content)
  IN IsOk(ev.res) /\ ev.res.node = n /\ ev.res.size = Size(n) /\ ev.res.inner = SizeSeq(ev.content)

(* C21 *)
JudgeCommute(ev) ==
  LET two == Rebased(ev.s1, ev.s2, ev.rel)
      all == {ev.r1, ev.r2, ev.r12, ev.r21}
  IN /\ \A r \in all : r.r \in {"ok", "err", "none"}
     /\ (/\ \A r \in all : IsOk(r)
         /\ Apart(ev.s1, ev.s2, ev.rel)
         /\ (IsMarkStep(ev.s1) \/ IsMarkStep(ev.s2) => Valid(doc))
         /\ Normal(doc) /\ NormalSeq(SliceOfStep(ev.s1).c) /\ NormalSeq(SliceOfStep(ev.s2).c)) =>
        /\ ev.t1 = two[1] /\ ev.t2 = two[2]
        /\ ev.r12.doc = ev.r21.doc /\ ev.eq

(* C22 *)
JudgeAnyWrite(ev) == ev.res = "ok" /\ ev.same /\ ev.back # "panic"

-----------------------------------------------------------------------------
Judge(ev) ==
  CASE ev.op = "audit" -> JudgeAudit(ev)
    [] ev.op = "auditFrag" -> JudgeAuditFrag(ev)
    [] ev.op = "resolve" -> JudgeResolve(ev)
    [] ev.op = "slice" -> JudgeSlice(ev)
    [] ev.op = "putBack" -> JudgePutBack(ev)
    [] ev.op = "replace" -> JudgeReplace(ev)
    [] ev.op = "valid" -> JudgeValid(ev)
    [] ev.op = "normal" -> JudgeNormal(ev)
    [] ev.op = "mark" -> JudgeMark(ev)
    [] ev.op = "around" -> JudgeAround(ev)
    [] ev.op = "add" -> JudgeAdd(ev)
    [] ev.op = "remove" -> JudgeRemove(ev)
    [] ev.op = "into" -> JudgeInto(ev)
    [] ev.op = "list" -> JudgeList(ev)
    [] ev.op = "query" -> JudgeQuery(ev)
    [] ev.op = "structure" -> JudgeStructure(ev)
    [] ev.op = "call" -> JudgeCall(ev)
    [] ev.op = "submit" -> JudgeSubmit(ev)
    [] ev.op = "join" -> IF Prop = "C16" THEN JudgeTextJoin(ev) ELSE JudgeJoin(ev)
    [] ev.op = "deliver" -> JudgeDeliver(ev)
    [] ev.op = "encode" -> JudgeEncode(ev)
    [] ev.op = "decode" -> JudgeDecode(ev)
    [] ev.op = "match" -> JudgeMatch(ev)
    [] ev.op = "compat" -> JudgeCompat(ev)
    [] ev.op = "allows" -> JudgeAllows(ev)
    [] ev.op = "matchAt" -> JudgeMatchAt(ev)
    [] ev.op = "canReplace" -> JudgeCanReplace(ev)
    [] ev.op = "visit" -> JudgeVisit(ev)
    [] ev.op = "text" -> JudgeText(ev)
    [] ev.op = "content" -> JudgeContent(ev)
    [] ev.op = "cut" -> JudgeCut(ev)
    [] ev.op = "fragCut" -> JudgeFragCut(ev)
    [] ev.op = "cutAppend" -> JudgeCutAppend(ev)
    [] ev.op = "append" -> JudgeAppend(ev)
    [] ev.op = "replaceChild" -> JudgeReplaceChild(ev)
    [] ev.op = "copy" -> JudgeCopy(ev)
    [] ev.op = "remark" -> JudgeRemark(ev)
    [] ev.op = "textCut" -> JudgeTextCut(ev)
    [] ev.op = "read" -> JudgeRead(ev)
    [] ev.op = "write" -> JudgeWrite(ev)
    [] ev.op = "undo" -> JudgeUndo(ev)
    [] ev.op = "undoStep" -> JudgeUndoStep(ev)
    [] ev.op = "equal" -> JudgeEqual(ev)
    [] ev.op = "construct" -> JudgeConstruct(ev)
    [] ev.op = "commute" -> JudgeCommute(ev)
    [] ev.op = "anyWrite" -> JudgeAnyWrite(ev)
    [] OTHER -> FALSE

\* the document and the memory after the call
NextDoc(ev) ==
  IF ev.op = "submit" THEN (IF IsOk(ev.res) THEN ev.res.doc ELSE doc)
  ELSE IF ev.op = "structure" THEN (IF ev.upd THEN ev.off.doc ELSE doc)
  ELSE IF ev.op \in {"replace", "valid", "normal", "mark", "around", "undo", "undoStep"} /\ ev.upd THEN ev.res.doc
  ELSE doc
NextAux(ev) ==
  CASE ev.op \in {"add", "remove", "into"} -> ev.res.set
    [] ev.op = "submit" /\ IsOk(ev.res) -> Publish(aux, ev.res.doc)
    [] ev.op = "join" /\ Prop = "C12" -> AddReplica(aux)
    [] ev.op = "deliver" -> Deliver(aux, ev.rep)
    [] OTHER -> aux

Init ==
  /\ s \in 1..Len(Sessions)
  /\ k = 0
  /\ doc = Sessions[s].doc
  /\ aux = CASE Prop = "C08" -> Sessions[s].set
             [] Prop = "C12" -> NewAuthority(Sessions[s].doc, Sessions[s].reps)
             [] OTHER -> <<>>
  /\ bad = <<>>

Next ==
  /\ bad = <<>>
  /\ k < Len(Sessions[s].evs)
  /\ LET ev == Sessions[s].evs[k + 1]
         fine == Judge(ev)
     IN /\ k' = k + 1
        /\ s' = s
        /\ bad' = IF fine THEN <<>> ELSE << ev.op >>
        /\ doc' = IF fine THEN NextDoc(ev) ELSE doc
        /\ aux' = IF fine THEN NextAux(ev) ELSE aux

Spec == Init /\ [][Next]_vars

\* every observed call is one the specification allows
Allowed == bad = <<>> \/ (PrintT(<<"REJECTED", Sessions[s].id, k>>) /\ FALSE)
=============================================================================
