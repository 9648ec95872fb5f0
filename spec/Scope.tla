------------------------------- MODULE Scope --------------------------------
(* Writes a small scope to a file, for the harness to run the library in.     *)
EXTENDS Small, Json, IOUtils

num(s) == atoi(s)
DocSize   == num(IOEnv.DOCS)      \* documents up to this inner size
Rich      == num(IOEnv.RICH)      \* 0: no marks, 1: emphasis, 2: also images
SliceSize == num(IOEnv.SLICES)    \* any slices up to this size
CutSize   == num(IOEnv.CUTS)      \* slices of documents up to this size
AnySize   == num(IOEnv.ANY)       \* any contents up to this size
InlSize   == num(IOEnv.INL)       \* inline contents with many combinations of marks
MarkSize  == num(IOEnv.MARKS)     \* lists of so many marks
TextSize  == num(IOEnv.TEXTS)     \* markdown texts up to this length ...
Alphabet  == "a*_`#>-1. \n[]()!\\<"  \* ... over these characters

TS == {"paragraph", "blockquote", "bullet_list", "list_item"}
Slices == SetToSeq((IF SliceSize < 0 THEN {} ELSE FreeSlices(SliceSize, TS))
                   \cup (IF CutSize <= 0 THEN {} ELSE CutSlices(Docs(CutSize, Lesser(Rich, 1)))))

mk(k) == [k |-> k, a |-> <<>>]
Link  == [k |-> "link", a |-> << <<"href", "s", "/u">>, <<"title", "s", "">> >>]
ManyMarks == { <<>>, <<mk("em")>>, <<mk("strong")>>, <<mk("strong"), mk("em")>>, <<mk("code")>>,
               <<Link>>, <<mk("em"), Link>>, <<mk("strong"), mk("em"), mk("code"), Link>> }
Inlines == UNION {Inline(i, ManyMarks, {LeafN("hard_break"), ImageN}) : i \in 0..InlSize}

VARIABLE done
Init == /\ done = FALSE
        /\ JsonSerialize(IOEnv.OUT,
             [docs   |-> SetToSeq(Docs(DocSize, Rich)),
              slices |-> Slices,
              marks  |-> MarkSize,
              texts |-> TextSize, alphabet |-> Alphabet,
              inl    |-> IF InlSize < 0 THEN <<>> ELSE SetToSeq(Inlines),
              any    |-> IF AnySize < 0 THEN <<>> ELSE SetToSeq(AnyContent(AnySize, TS \cup {"heading", "code_block"}))])
Next == ~done /\ done' = TRUE
=============================================================================
