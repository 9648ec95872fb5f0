----------------------------- MODULE PMExpress ------------------------------
(* Documents that can be written as markdown by putting delimiters around the *)
(* marks as they start and end, and that keep their text and attributes when  *)
(* the result is read as CommonMark.                                          *)
EXTENDS PMMarks

Blank == "u0020"
Break == "u000a"

\* In a trace ASCII letters and digits stand for themselves. Control characters,
\* ampersands and closing brackets are not escaped, and neither is anything in code.
HexDigit == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"}
Control == {"u00" \o h \o x : h \in {"0", "1", "8", "9"}, x \in HexDigit} \cup {"u007f", "u00a0", "u00ad"}
Ampersand == "u0026"
Bracket == "u005d"
Backtick == "u0060"
Plain(s)     == \A i \in 1..Len(s) : s[i] \notin Control \cup {Ampersand, Bracket}
PlainCode(s) == \A i \in 1..Len(s) : s[i] \notin Control \cup {Backtick}
\* what could start a block at the beginning of a line: - + = ~ and numbers with . or )
Starters == {"u002d", "u002b", "u003d", "u007e"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LineStart(s) ==
  /\ s[1] \notin Starters
  /\ s[1] \in Digits => \A i \in 1..Len(s) : s[i] \notin {"u002e", "u0029"}
FirstOf(s) == s[1]
LastOf(s) == s[Len(s)]
NoOuterBlanks(s) == s # <<>> /\ FirstOf(s) # Blank /\ LastOf(s) # Blank

IsCode(n) == \E i \in 1..Len(n.m) : n.m[i].k = "code"
Around(n) == SelectSeq(n.m, LAMBDA m : m.k # "code")   \* the marks written as delimiters
AtomAround(n) == IF n.t = "text" THEN Around(n) ELSE <<>>

(* Attributes are written as they are: an address ends at a blank or bracket,  *)
(* a title at a quote, the name of a language at the end of the line; escapes, *)
(* entities and what binds more tightly than a link are left out.              *)
Letters(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Anywhere == {"\\", "&", "<", "`", "\"", "\n", "\t", "\r", "]"}
AddressOk(s) == s # "" /\ Letters(s) \cap (Anywhere \cup {" ", "(", ")", ">"}) = {}
TitleOk(s) == Letters(s) \cap Anywhere = {}
InfoOk(s) == TitleOk(s) /\ (s # "" => SubSeq(s, 1, 1) # " " /\ SubSeq(s, Len(s), Len(s)) # " ")
AltOk(s) == Letters(s) \cap {"&", "]", "\n", "\t", "\r"} = {}
AttrOk(a) ==
  CASE a[1] \in {"href", "src"} -> AddressOk(a[3])
    [] a[1] = "title"  -> TitleOk(a[3])
    [] a[1] = "params" -> InfoOk(a[3])
    [] a[1] = "alt"    -> AltOk(a[3])
    [] OTHER -> TRUE
AttrsOk(as) == \A i \in 1..Len(as) : AttrOk(as[i])
NodeAttrsOk(n) == AttrsOk(n.a) /\ \A i \in 1..Len(n.m) : AttrsOk(n.m[i].a)

(* Open delimiters are a stack. Going on to a node that has marks ms:         *)
(* everything from the first mark that ends is closed; the new ones are then  *)
(* opened. Nothing may have to be closed and opened again.                    *)
Kept(open, ms) ==
  LET ends == {i \in 1..Len(open) : ~HasMark(ms, open[i])}
  IN IF ends = {} THEN open
     ELSE SubSeq(open, 1, (CHOOSE i \in ends : \A j \in ends : i <= j) - 1)
New(kept, ms) == SelectSeq(ms, LAMBDA m : ~HasMark(kept, m))
Nested(open, ms) == \A i \in 1..Len(open) : HasMark(ms, open[i]) => HasMark(Kept(open, ms), open[i])

\* the delimiters between two nodes stand between a blank and a character
InlineStep(st, n) ==
  LET ms == AtomAround(n)
      kept == Kept(st.open, ms)
      new == New(kept, ms)
      closes == Len(kept) < Len(st.open)
      opens == new # <<>>
      p == st.prev
      text == n.t = "text"
      good ==
        /\ text => n.s # <<>> /\ (IF IsCode(n) THEN PlainCode(n.s) ELSE Plain(n.s))
        /\ NodeAttrsOk(n)
        /\ Nested(st.open, ms)
        /\ (text /\ IsCode(n)) => NoOuterBlanks(n.s)
        /\ ~(text /\ IsCode(n) /\ p.t = "text" /\ IsCode(p))
        /\ (p.t \in {"edge", "hard_break"} /\ text) =>
             (FirstOf(n.s) # Blank /\ (IsCode(n) \/ LineStart(n.s)))
        /\ (n.t = "hard_break") => (p.t = "image" \/ (p.t = "text" /\ LastOf(p.s) # Blank))
        /\ closes => (LastOf(p.s) # Blank /\ ((text /\ FirstOf(n.s) = Blank) \/ n.t # "text"))
        /\ opens => (FirstOf(n.s) # Blank /\ ((p.t = "text" /\ LastOf(p.s) = Blank) \/ p.t # "text"))
  IN [open |-> kept \o new, prev |-> n, ok |-> st.ok /\ good]

Edge == [t |-> "edge", a |-> <<>>, s |-> <<>>, m |-> <<>>, c |-> <<>>]

InlineOk(cs, breaks) ==
  LET st == FoldLeft(InlineStep, [open |-> <<>>, prev |-> Edge, ok |-> TRUE], cs)
      l == cs[Len(cs)]
  IN /\ cs # <<>>
     /\ st.ok
     /\ l.t # "hard_break"
     /\ l.t = "text" => LastOf(l.s) # Blank
     /\ ~breaks => \A i \in 1..Len(cs) : cs[i].t # "hard_break"

\* code blocks: anything that does not end the block
CodeOk(cs) ==
  \A i \in 1..Len(cs) : \A j \in 1..Len(cs[i].s) :
    /\ cs[i].s[j] \in Control => cs[i].s[j] = Break
    /\ j > 3 => \E k \in (j - 3)..j : cs[i].s[k] # Backtick

ListTypes == {"bullet_list", "ordered_list"}
Flag(n, name) == \E i \in 1..Len(n.a) : n.a[i][1] = name /\ n.a[i][3] = "true"

RECURSIVE ExpressibleNode(_)
ExpressibleNode(n) ==
  NodeAttrsOk(n) /\
  CASE n.t = "paragraph"       -> InlineOk(n.c, TRUE)
    [] n.t = "heading"         -> InlineOk(n.c, FALSE)
    [] n.t = "code_block"      -> CodeOk(n.c)
    [] n.t = "horizontal_rule" -> TRUE
    [] OTHER ->
         /\ ~Flag(n, "tight")
         /\ \A i \in 1..Len(n.c) : ExpressibleNode(n.c[i])
         /\ \A i \in 1..(Len(n.c) - 1) : ~(n.c[i].t \in ListTypes /\ n.c[i+1].t = n.c[i].t)

Expressible(d) == Valid(d) /\ Normal(d) /\ ExpressibleNode(d)
=============================================================================
