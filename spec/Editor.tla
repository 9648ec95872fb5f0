------------------------------- MODULE Editor --------------------------------
(* The editor: a document and the steps it accepts. All documents that steps  *)
(* lead to from the empty document, up to a size, and what is to hold in each *)
(* of them for every range, slice and step.                                   *)
EXTENDS PMAlgo, PMBuild, Small, IOUtils

Prop    == IOEnv.PROP
MaxSize == atoi(IOEnv.MAX)      \* documents up to this inner size
Rich    == atoi(IOEnv.RICH)
FreeSize == atoi(IOEnv.SLICES)  \* slices of any content up to this size
CutSize  == atoi(IOEnv.CUTS)    \* slices of documents up to this size

EmptyDoc == NodeN("doc", << NodeN("paragraph", <<>>) >>)
TS == {"paragraph", "blockquote", "bullet_list", "list_item"}

\* what the editor's own steps insert: blocks, inline content, splits and wrappers
Lists == {NodeN(t, << NodeN("list_item", << NodeN("paragraph", <<>>) >>) >>) : t \in {"bullet_list", "ordered_list"}}
Pieces ==
  CutSlices(Docs(3, Rich))
  \cup (IF Rich > 1 THEN {[c |-> << ImageN >>, os |-> 0, oe |-> 0]} ELSE {})
  \cup {[c |-> <<l>>, os |-> 0, oe |-> 0] : l \in Lists}
  \cup {[c |-> << NodeN(t, <<>>), NodeN(t, <<>>) >>, os |-> 1, oe |-> 1] : t \in {"paragraph", "heading", "list_item"}}

\* the slices of the laws
Slices == (IF FreeSize < 0 THEN {} ELSE FreeSlices(FreeSize, TS))
          \cup (IF CutSize <= 0 THEN {} ELSE CutSlices(Docs(CutSize, Rich)))

VARIABLE doc, met   \* met: the laws are looked at in this state
T == Inside(doc)
Pos == {p \in 0..Len(T) : Resolvable(T, p)}
Ranges == {<<a, b>> \in Pos \X Pos : a <= b}

-----------------------------------------------------------------------------
Mark(k) == [k |-> k, a |-> <<>>]
ReplaceSteps ==
  {[st |-> "replace", from |-> r[1], to |-> r[2], slice |-> s, structure |-> FALSE] : r \in Ranges, s \in Pieces}
MarkSteps ==
  {[st |-> st, from |-> r[1], to |-> r[2], mark |-> m] :
     st \in {"addMark", "removeMark"}, r \in Ranges, m \in (IF Rich = 0 THEN {} ELSE {Mark("em")})}
Gaps == {g \in Pos \X Pos \X Pos \X Pos : g[1] <= g[2] /\ g[2] <= g[3] /\ g[3] <= g[4]}
Wrappers ==
  {<<EmptySlice, 0>>}
  \cup {<<[c |-> << NodeN(t, <<>>) >>, os |-> 0, oe |-> 0], 1>> : t \in {"blockquote", "paragraph", "heading", "code_block"}}
  \cup {<<[c |-> << NodeN("bullet_list", << NodeN("list_item", <<>>) >>) >>, os |-> 0, oe |-> 0], 2>>}
AroundSteps ==
  {[st |-> "replaceAround", from |-> g[1], gapFrom |-> g[2], gapTo |-> g[3], to |-> g[4],
    slice |-> w[1], insert |-> w[2], structure |-> FALSE] : g \in Gaps, w \in Wrappers}

Try(s) ==
  LET out == StepOutcome(doc, T, s)
  IN /\ out.ok
     /\ Len(out.toks) <= MaxSize
     /\ doc' = WithToks(doc, out.toks)
     /\ met' = met

\* "empty": from the empty document only; "all": from every small one; "laws": only look at those
FromEmpty == IOEnv.START = "empty"
Init == /\ met = FALSE
        /\ IF FromEmpty THEN doc = EmptyDoc ELSE doc \in Docs(MaxSize, Rich)
Next ==
  IF IOEnv.START = "laws" THEN ~met /\ met' = TRUE /\ doc' = doc
  ELSE \/ \E s \in ReplaceSteps : Try(s)
       \/ \E s \in MarkSteps : Try(s)
       \/ \E s \in AroundSteps : Try(s)
Spec == Init /\ [][Next]_<<doc, met>>

\* Steps lead from the empty document to every valid document of the size (texts here
\* consist of one letter only)
Shape(d) == [i \in 1..Size(d) |-> LET t == Toks(d)[i] IN IF t[1] = "x" THEN <<"x", "a", <<>>, t[4]>> ELSE t]
Reached == FromEmpty => TLCGet("distinct") = Cardinality({Shape(d) : d \in Docs(MaxSize, Rich)})

-----------------------------------------------------------------------------
(* Laws                                                                       *)

WellFormed == Valid(doc) /\ Normal(doc) /\ Len(T) <= MaxSize

\* C01: tokens, sizes and trees describe the same document
Law01 == /\ Size(doc) = Len(T) + 2 /\ SizeSeq(doc.c) = Len(T)
         /\ Balanced(T) /\ Parse(T) = doc.c
         /\ \A n \in {Spans(doc.c, 0, <<>>)[i] : i \in 1..Len(Spans(doc.c, 0, <<>>))} :
              SubSeq(T, n.from + 1, n.to) = Toks(n.node)

\* C02: the way down to a position and the tokens around it agree
Law02 ==
  \A p \in Pos :
    LET x == ResolveInfo(doc, T, p)
        tp == TreePath(doc, p)
        d == x.depth
    IN /\ Len(tp) = d + 1
       /\ \A i \in 1..d : tp[i].node.c[tp[i].index + 1] = tp[i + 1].node
       /\ \A i \in 1..(d + 1) : x.start[i] <= p /\ p <= x.end[i] /\ x.end[i] - x.start[i] = SizeSeq(tp[i].node.c)
       /\ \A i \in 1..d : x.before[i] + 1 = x.start[i + 1] /\ x.after[i] = x.end[i + 1] + 1
       /\ \A i \in 1..d : SubSeq(T, x.before[i] + 1, x.after[i]) = Toks(tp[i + 1].node)
       /\ \A i \in 1..(d + 1) : p - tp[i].off = x.start[i]
       /\ x.nb # <<>> => Size(x.nb[1]) <= p - x.start[d + 1]
       /\ x.na # <<>> => Size(x.na[1]) <= x.end[d + 1] - p
       /\ (x.nb = <<>>) = (p = x.start[d + 1]) /\ (x.na = <<>>) = (p = x.end[d + 1])
       /\ \A q \in Pos :
            LET s == SharedDepth(T, p, q)
            IN /\ s = SharedDepth(T, q, p)
               /\ x.start[s + 1] <= q /\ q <= x.end[s + 1]
               /\ \A i \in (s + 2)..(d + 1) : ~(x.start[i] <= q /\ q <= x.end[i])

\* C03: slices say how deep they are open, and go back where they were
Law03 ==
  \A r \in Ranges :
    LET s == SliceOf(T, r[1], r[2], FALSE)
        w == SliceOf(T, r[1], r[2], TRUE)
        SC == ToksSeq(s.c)
    IN /\ OpenDepthsFit(SC, s.os, s.oe) /\ NormalSeq(s.c)
       /\ SubSeq(SC, s.os + 1, Len(SC) - s.oe) = SubSeq(T, r[1] + 1, r[2])
       /\ AlgoSlice(doc, r[1], r[2], FALSE) = s
       /\ r[1] # r[2] => AlgoSlice(doc, r[1], r[2], TRUE) = w
       /\ ReplaceOutcome(doc, T, r[1], r[2], s) = Acc(T)
       /\ r[1] # r[2] => ReplaceOutcome(doc, T, r[1], r[2], w) = Acc(T)

\* C04: the library's replacement of trees is the replacement of tokens
Law04 ==
  \A r \in Ranges : \A s \in Slices :
    LET out == ReplaceOutcome(doc, T, r[1], r[2], s)
        alg == AlgoReplace(doc, r[1], r[2], s)
    IN /\ out.ok = alg.ok
       /\ IF alg.ok THEN ToksSeq(alg.c[1].c) = out.toks /\ alg.c[1].t = "doc" ELSE alg.why \in out.why

\* C05, C06: it is enough to look at the seams
Law05 ==
  \A r \in Ranges : \A s \in Slices :
    EnclosedValid(s) =>
      LET out == ReplaceOutcome(doc, T, r[1], r[2], s)
      IN out.ok => Balanced(out.toks) /\ Valid(WithToks(doc, out.toks))
Law06 ==
  \A r \in Ranges : \A s \in Slices :
    LET alg == AlgoReplace(doc, r[1], r[2], s)
    IN alg.ok => Normal(alg.c[1]) /\ alg.c[1].c = Parse(ToksSeq(alg.c[1].c))

\* C07: a mark step is a map over the tokens, and replaces the range by itself
Law07 ==
  \A s \in MarkSteps :
    LET out == MarkStepOutcome(doc, T, s)
        new == WithToks(doc, out.toks)
    IN /\ out = AnyMarkStepOutcome(doc, T, s)
       /\ out.ok /\ Valid(new)
       /\ MarkStepOutcome(new, out.toks, s) = out
       /\ [i \in 1..Len(T) |-> SubSeq(T[i], 1, 3)] = [i \in 1..Len(T) |-> SubSeq(out.toks[i], 1, 3)]

\* C09: structural steps keep every leaf and every unit of text
Content(toks) == SelectSeq(toks, LAMBDA t : t[1] \in {"l", "x"})
Law09 ==
  /\ \A r \in Ranges : \A s \in Slices :
       LET out == ReplaceStepOutcome(doc, T, [st |-> "replace", from |-> r[1], to |-> r[2], slice |-> s, structure |-> TRUE])
       IN out.ok => Content(out.toks) = Content(SubSeq(T, 1, r[1])) \o Content(ToksSeq(s.c)) \o Content(SubSeq(T, r[2] + 1, Len(T)))
                    /\ Content(SubSeq(T, r[1] + 1, r[2])) = <<>>
  /\ \A g \in AroundSteps :
       LET s == [g EXCEPT !.structure = TRUE]
           out == ReplaceAroundOutcome(doc, T, s)
       IN out.ok => Content(out.toks) = Content(T)

\* C10: the gap is kept, and the library's insertion is the insertion of tokens
Law10 ==
  \A s \in AroundSteps :
    LET out == ReplaceAroundOutcome(doc, T, s)
        gap == SliceOf(T, s.gapFrom, s.gapTo, FALSE)
        ins == InsertGap(s.slice, s.insert, gap.c)
        alg == InsertInto(s.slice.c, s.insert + s.slice.os, gap.c, "", s.slice.os, s.slice.oe)
        SC == ToksSeq(s.slice.c)
        q == s.insert + s.slice.os
    IN /\ (gap.os = 0 /\ gap.oe = 0) => (ins.ok = alg.ok /\ (ins.ok => ToksSeq(ins.slice.c) = ToksSeq(alg.c)))
       /\ out.ok =>
            /\ out.toks = SubSeq(T, 1, s.from) \o SubSeq(SC, s.slice.os + 1, q)
                          \o SubSeq(T, s.gapFrom + 1, s.gapTo)
                          \o SubSeq(SC, q + 1, Len(SC) - s.slice.oe) \o SubSeq(T, s.to + 1, Len(T))
            /\ Valid(WithToks(doc, out.toks))

\* C15: the walk visits what overlaps; text of adjacent ranges adds up
Law15 ==
  \A r \in Ranges :
    LET v == Visited(doc.c, r[1], r[2], {})
        txt(a, b) == TextBetween(doc.c, a, b, <<>>, <<>>, TRUE)
    IN /\ r[1] < r[2] => Walk(doc.c, r[1], r[2], 0) = [i \in 1..Len(v) |-> <<v[i].from, v[i].node.t>>]
       /\ LET x == SelectSeq(SubSeq(T, r[1] + 1, r[2]), LAMBDA t : t[1] = "x")
          IN txt(r[1], r[2]) = [i \in 1..Len(x) |-> x[i][2]]
       /\ \A m \in {m \in Pos : r[1] <= m /\ m <= r[2]} : txt(r[1], m) \o txt(m, r[2]) = txt(r[1], r[2])

\* C16: cutting keeps the nodes around; the parts add up
Law16 ==
  /\ \A r \in Ranges :
       LET x == CutToks(T, r[1], r[2])
           c == CutSeq(doc.c, r[1], r[2])
       IN /\ ToksSeq(c) = x /\ NormalSeq(c) /\ Balanced(x)
  /\ \A p \in Pos : DepthAt(T, p) = 0 =>
       AppendSeq(CutSeq(doc.c, 0, p), CutSeq(doc.c, p, Len(T))) = doc.c

\* C19: replacing the replacement by what was there restores the document
Law19 ==
  /\ \A r \in Ranges : \A s \in Slices :
    LET out == ReplaceOutcome(doc, T, r[1], r[2], s)
        SC == ToksSeq(s.c)
        new == WithToks(doc, out.toks)
        t == r[1] + Len(SC) - s.os - s.oe
        old == SliceOf(T, r[1], r[2], FALSE)
    IN (out.ok /\ NormalSeq(s.c)) =>
         LET back == ReplaceOutcome(new, out.toks, r[1], t, old)
         IN back = Acc(T)
  /\ \A s \in MarkSteps \cup AroundSteps :
    LET out == StepOutcome(doc, T, s)
        old == SliceOf(T, s.from, s.to, FALSE)
    IN out.ok => ReplaceOutcome(WithToks(doc, out.toks), out.toks, s.from, s.to + Grows(s), old) = Acc(T)

\* C21: steps apart from each other commute
Law21 ==
  LET Some == {s \in {[st |-> "replace", from |-> r[1], to |-> r[2], slice |-> s, structure |-> FALSE] : r \in Ranges, s \in Slices}
                     \cup AroundSteps \cup MarkSteps : StepOutcome(doc, T, s).ok}
      Marking == {s \in Some : IsMarkStep(s)}
                 \cup {[s EXCEPT !.mark = Mark("strong")] : s \in MarkSteps}
      Agree(s1, s2, rel) ==
        LET two == Rebased(s1, s2, rel)
            t1  == StepOutcome(doc, T, s1).toks
            t2  == StepOutcome(doc, T, s2).toks
            r12 == StepOutcome(WithToks(doc, t1), t1, two[2])
            r21 == StepOutcome(WithToks(doc, t2), t2, two[1])
        IN (r12.ok /\ r21.ok) => r12 = r21
  IN /\ \A s \in Some \cup Marking : Len(StepOutcome(doc, T, s).toks) = Len(T) + Grows(s)
     /\ \A s1 \in Some \ Marking : \A s2 \in Some \ Marking :
          /\ Behind(s1, s2) => Agree(s1, s2, "after")
          /\ InGap(s1, s2)  => Agree(s1, s2, "inside")
     /\ \A s1 \in Marking : \A s2 \in Marking : Apart(s1, s2, "marks") => Agree(s1, s2, "marks")

Law == met =>
  CASE Prop = "C01" -> Law01
    [] Prop = "C02" -> Law02
    [] Prop = "C03" -> Law03
    [] Prop = "C04" -> Law04
    [] Prop = "C05" -> Law05
    [] Prop = "C06" -> Law06
    [] Prop = "C07" -> Law07
    [] Prop = "C09" -> Law09
    [] Prop = "C10" -> Law10
    [] Prop = "C15" -> Law15
    [] Prop = "C16" -> Law16
    [] Prop = "C19" -> Law19
    [] Prop = "C21" -> Law21
    [] OTHER -> TRUE
=============================================================================
