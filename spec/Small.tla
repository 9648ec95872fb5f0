------------------------------- MODULE Small --------------------------------
(* All small documents, contents and slices: the scope in which the models    *)
(* are explored and in which the library is run exhaustively.                 *)
EXTENDS PMReplace

Em   == << [k |-> "em", a |-> <<>>] >>
NoM  == <<>>
TextN(s, m) == MkNode("text", <<>>, s, m, <<>>)
LeafN(t)    == MkNode(t, <<>>, <<>>, <<>>, <<>>)
NodeN(t, c) ==
  MkNode(t, CASE t = "heading"      -> << <<"level", "n", "1">> >>
              [] t = "code_block"   -> << <<"params", "s", "">> >>
              [] t = "bullet_list"  -> << <<"tight", "b", "false">> >>
              [] t = "ordered_list" -> << <<"order", "n", "1">>, <<"tight", "b", "false">> >>
              [] OTHER -> <<>>, <<>>, <<>>, c)
ImageN == MkNode("image", << <<"alt", "s", "">>, <<"src", "s", "i">>, <<"title", "s", "">> >>, <<>>, <<>>, <<>>)

Cat(A, B) == {a \o b : a \in A, b \in B}

\* the texts of a length; two units may also be one character (a surrogate pair)
RECURSIVE Strings(_)
Strings(n) ==
  IF n = 0 THEN {<<>>}
  ELSE IF n = 1 THEN {<<"a">>}
  ELSE LET p == {s \o <<"b">> : s \in Strings(n - 1)}
       IN IF n = 2 THEN p \cup {<<"H61", "L522">>} ELSE p

\* inline sequences in normal form of total size n, with texts marked by MS and leaves LS
RECURSIVE Inl(_, _, _)
Inl(n, MS, LS) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION { LET pre == Inl(n - k, MS, LS) IN
               {Append(p, TextN(s, m)) : p \in {p \in pre : TRUE}, s \in Strings(k), m \in MS}
               \cup (IF k = 1 THEN {Append(p, l) : p \in pre, l \in LS} ELSE {})
             : k \in 1..n }
Inline(n, MS, LS) == {c \in Inl(n, MS, LS) : NormalSeq0(c)}

\* valid blocks of size n and non-empty sequences of them. R: how rich
MarksOf(R)  == IF R = 0 THEN {NoM} ELSE {NoM, Em}
LeavesOf(R) == IF R <= 1 THEN {LeafN("hard_break")} ELSE {LeafN("hard_break"), ImageN}
RECURSIVE Block(_, _), Blocks(_, _), Item(_, _), Items(_, _)
Block(n, R) ==
  (IF n = 1 THEN {LeafN("horizontal_rule")} ELSE {})
  \cup (IF n < 2 THEN {} ELSE
        {NodeN("paragraph", c) : c \in Inline(n - 2, MarksOf(R), LeavesOf(R))}
        \cup {NodeN("heading", c) : c \in Inline(n - 2, MarksOf(R), LeavesOf(R) \ {LeafN("hard_break")})}
        \cup {NodeN("code_block", c) : c \in Inline(n - 2, {NoM}, {})}
        \cup {NodeN("blockquote", c) : c \in Blocks(n - 2, R)}
        \cup {NodeN("bullet_list", c) : c \in Items(n - 2, R)}
        \cup {NodeN("ordered_list", c) : c \in Items(n - 2, R)})
Blocks(n, R) ==
  IF n <= 0 THEN {}
  ELSE {<<b>> : b \in Block(n, R)}
       \cup UNION {{p \o <<b>> : p \in Blocks(n - k, R), b \in Block(k, R)} : k \in 1..(n - 1)}
Item(n, R) ==
  IF n < 4 THEN {}
  ELSE UNION {{NodeN("list_item", <<p>> \o bs) :
                 p \in {p \in Block(k, R) : p.t = "paragraph"},
                 bs \in (IF n - 2 - k = 0 THEN {<<>>} ELSE Blocks(n - 2 - k, R))} : k \in 2..(n - 2)}
Items(n, R) ==
  IF n <= 0 THEN {}
  ELSE {<<b>> : b \in Item(n, R)}
       \cup UNION {{p \o <<b>> : p \in Items(n - k, R), b \in Item(k, R)} : k \in 1..(n - 1)}

\* valid documents in normal form with inner size at most n
Docs(n, R) == {NodeN("doc", c) : c \in UNION {Blocks(i, R) : i \in 1..n}}

\* any sequences of nodes of size n, valid or not, over the types TS
RECURSIVE AnySeq(_, _)
AnySeq(n, TS) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION { LET pre == AnySeq(n - k, TS)
                   one == {TextN(s, m) : s \in Strings(k), m \in {NoM, Em}}
                          \cup (IF k = 1 THEN {LeafN("hard_break"), LeafN("horizontal_rule")}
                                ELSE {NodeN(t, c) : t \in TS, c \in AnySeq(k - 2, TS)})
               IN {Append(p, x) : p \in pre, x \in one}
             : k \in 1..n }
AnyContent(n, TS) == {c \in UNION {AnySeq(i, TS) : i \in 0..n} : NormalSeq(c)}

\* the slices with a content, open at either end as deep as it goes
Openings(c) ==
  LET SC == ToksSeq(c) IN
  {[c |-> c, os |-> os, oe |-> oe] : os \in {i \in 0..3 : OpenDepthsFit(SC, i, 0)},
                                     oe \in {i \in 0..3 : OpenDepthsFit(SC, 0, i)}}
FreeSlices(n, TS) == UNION {Openings(c) : c \in AnyContent(n, TS)}

\* the slices that documents have
CutSlices(D) ==
  UNION { LET T == Inside(d)
              P == {i \in 0..Len(T) : Resolvable(T, i)}
          IN UNION {{SliceOf(T, a, b, FALSE) : b \in {i \in P : i > a}} : a \in P}
        : d \in D } \cup {EmptySlice}
=============================================================================
