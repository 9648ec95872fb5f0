------------------------------ MODULE PMBuild -------------------------------
(* What the constructors (helper functions, conversions to fragments) make,   *)
(* and how positions move with a step.                                        *)
EXTENDS PMStep

\* a conversion makes these children; content is what it was given
Level(x) == << <<"level", "n", x>> >>
Params(x) == << <<"params", "s", x>> >>
Built(how, arg, text, content) ==
  LET n(t, a) == MkNode(t, a, <<>>, <<>>, content)
      x(m) == MkNode("text", <<>>, text, m, <<>>)
      mk(k) == << [k |-> k, a |-> <<>>] >>
  IN CASE how \in {"doc", "fragment"} -> n("doc", <<>>)
       [] how = "h"  -> n("heading", Level(arg))
       [] how = "h1" -> n("heading", Level("1"))
       [] how = "h2" -> n("heading", Level("2"))
       [] how = "p"  -> n("paragraph", <<>>)
       [] how = "li" -> n("list_item", <<>>)
       [] how = "ul" -> n("bullet_list", << <<"tight", "b", "false">> >>)
       [] how = "blockquote" -> n("blockquote", <<>>)
       [] how = "code_block" -> n("code_block", Params(arg))
       [] how = "em"     -> x(mk("em"))
       [] how = "strong" -> x(mk("strong"))
       [] how = "text"   -> x(<<>>)

-----------------------------------------------------------------------------
(* Positions and steps                                                        *)

IsMarkStep(s) == s.st \in {"addMark", "removeMark"}
\* by how much a step makes the document longer
SliceLen(s) == SizeSeq(s.slice.c) - s.slice.os - s.slice.oe
Grows(s) ==
  CASE IsMarkStep(s) -> 0
    [] s.st = "replace" -> SliceLen(s) - (s.to - s.from)
    [] OTHER -> SliceLen(s) - (s.gapFrom - s.from) - (s.to - s.gapTo)
\* ... in front of its gap
GrowsHead(s) == s.insert - (s.gapFrom - s.from)

Moved(s, d) ==
  IF s.st = "replaceAround"
  THEN [s EXCEPT !.from = @ + d, !.to = @ + d, !.gapFrom = @ + d, !.gapTo = @ + d]
  ELSE [s EXCEPT !.from = @ + d, !.to = @ + d]
MovedTail(s, d) == [s EXCEPT !.to = @ + d, !.gapTo = @ + d]

\* s2 is behind s1, or in the gap of s1
Behind(s1, s2) == s1.to <= s2.from
InGap(s1, s2)  == s1.st = "replaceAround" /\ s1.gapFrom <= s2.from /\ s2.to <= s1.gapTo

\* <<s1 after s2, s2 after s1>>
Rebased(s1, s2, rel) ==
  CASE rel = "marks"  -> << s1, s2 >>
    [] rel = "after"  -> << s1, Moved(s2, Grows(s1)) >>
    [] rel = "inside" -> << MovedTail(s1, Grows(s2)), Moved(s2, GrowsHead(s1)) >>
\* the gap lies within the range
Ordered(s) ==
  IF s.st = "replaceAround" THEN s.from <= s.gapFrom /\ s.gapFrom <= s.gapTo /\ s.gapTo <= s.to
  ELSE s.from <= s.to
Apart(s1, s2, rel) ==
  Ordered(s1) /\ Ordered(s2) /\
  CASE rel = "marks"  -> IsMarkStep(s1) /\ IsMarkStep(s2) /\ s1.mark.k # s2.mark.k
    [] rel = "after"  -> Behind(s1, s2)
    [] rel = "inside" -> InGap(s1, s2)
=============================================================================
