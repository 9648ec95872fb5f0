------------------------------ MODULE PMSchema ------------------------------
(* The markdown schema of prosemirror-rs: node types, their groups, content   *)
(* expressions and marks, and which marks a node allows on its children.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NodeTypes ==
  {"doc", "heading", "code_block", "text", "blockquote", "paragraph", "bullet_list",
   "ordered_list", "list_item", "horizontal_rule", "hard_break", "image"}

\* nodes without a content fragment: one position token (text: one per UTF-16 unit)
LeafTypes == {"text", "image", "hard_break", "horizontal_rule"}

BlockGroup ==
  {"paragraph", "blockquote", "heading", "horizontal_rule", "code_block",
   "ordered_list", "bullet_list"}

InlineGroup == {"text", "image", "hard_break"}

\* A content expression in the form  first[1] first[2] ... rest*  (each a set of types):
\*   block+ = Block Block*,  paragraph block*,  inline*,  (text | image)*,  text*,  list_item+
Plus(S)  == [first |-> <<S>>, rest |-> S]
Star(S)  == [first |-> <<>>, rest |-> S]
Expr == [t \in NodeTypes |->
  CASE t = "doc"          -> Plus(BlockGroup)
    [] t = "blockquote"   -> Plus(BlockGroup)
    [] t = "list_item"    -> [first |-> <<{"paragraph"}>>, rest |-> BlockGroup]
    [] t = "bullet_list"  -> Plus({"list_item"})
    [] t = "ordered_list" -> Plus({"list_item"})
    [] t = "paragraph"    -> Star(InlineGroup)
    [] t = "heading"      -> Star({"text", "image"})
    [] t = "code_block"   -> Star({"text"})
    [] OTHER              -> Star({})]

\* the sequence of types ts can be continued to a word of the expression
Viable(e, ts) ==
  \A i \in 1..Len(ts) : ts[i] \in (IF i <= Len(e.first) THEN e.first[i] ELSE e.rest)

\* the sequence of types ts is a word of the expression
Matches(e, ts) == Len(ts) >= Len(e.first) /\ Viable(e, ts)

\* the types a word can start with
FirstSet(t) == IF Expr[t].first = <<>> THEN Expr[t].rest ELSE Expr[t].first[1]

\* content of the two types can be joined: the same type, or a common first child
Compatible(a, b) == a = b \/ FirstSet(a) \cap FirstSet(b) # {}

\* marks are allowed on the children of text blocks other than code (and, as in
\* ProseMirror's default, in inline and leaf nodes)
AllowsMarks(t) == t \in {"heading", "paragraph"} \cup LeafTypes

\* the classification used by traversal: Node::is_block (every non-inline node) ...
IsBlockNode(t)  == t \notin InlineGroup
\* ... and by types: NodeType::is_block is the schema's group "block"
IsBlockType(t)  == t \in BlockGroup
IsInlineType(t) == t \in InlineGroup

\* marks in the order the schema lists them
MarkTypes == <<"strong", "em", "code", "link">>
MarkRank == [m \in {"strong", "em", "code", "link"} |->
               CHOOSE i \in 1..4 : MarkTypes[i] = m]

\* attributes a node type has, in the order of their names
AttrNames == [t \in NodeTypes |->
  CASE t = "heading"      -> <<"level">>
    [] t = "code_block"   -> <<"params">>
    [] t = "bullet_list"  -> <<"tight">>
    [] t = "ordered_list" -> <<"order", "tight">>
    [] t = "image"        -> <<"alt", "src", "title">>
    [] OTHER              -> <<>>]
=============================================================================
