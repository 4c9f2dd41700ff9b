------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Printing of parse trees: the indented form and the Mermaid flowchart.      *)
(* Trees are those of Gram: <<"N", name, children>> and <<"T", text>>.        *)
(***************************************************************************)
EXTENDS Gram

NL == "\n"
Label(x) == IF IsT(x) THEN "\"" \o x[2] \o "\"" ELSE "<" \o x[2] \o ">"
RECURSIVE Labels(_)
Labels(xs) == IF xs = <<>> THEN "" ELSE " " \o Label(Head(xs)) \o Labels(Tail(xs))
NodeText(x) == IF IsT(x) THEN Label(x) ELSE Label(x) \o " ::=" \o Labels(x[3])

(* anc: the columns of the ancestors; glyph: this node's own column *)
Mid == "├── "
End == "└── "
Bar == "│   "
Gap == "    "
Column(glyph) == CASE glyph = "" -> "" [] glyph = Mid -> Bar [] OTHER -> Gap
RECURSIVE PrintLines(_, _, _)
PrintLines(x, anc, glyph) ==
  <<anc \o glyph \o NodeText(x)>> \o
  (IF IsT(x) THEN <<>>
   ELSE Flatten([k \in DOMAIN x[3] |->
          PrintLines(x[3][k], anc \o Column(glyph), IF k = Len(x[3]) THEN End ELSE Mid)]))
Printed(t) == PrintLines(t, "", "")

RECURSIVE Unlines(_)
Unlines(ls) == IF ls = <<>> THEN "" ELSE Head(ls) \o NL \o Unlines(Tail(ls))
PrintText(t) == Unlines(Printed(t))

(* ------------------------------- Mermaid -------------------------------- *)
Special == {"\"", "&", "#", "<", ">", "[", "\\", "]", ";", "\n", "\r"}
Code(ch) == CASE ch = "\"" -> "34" [] ch = "&" -> "38" [] ch = "#" -> "35" [] ch = "<" -> "60" [] ch = ">" -> "62"
              [] ch = "[" -> "91" [] ch = "\\" -> "92" [] ch = "]" -> "93" [] ch = ";" -> "59"
              [] ch = "\n" -> "10" [] OTHER -> "13"
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE EscapeFrom(_, _)
EscapeFrom(s, i) == IF i > Len(s) THEN ""
                    ELSE (IF Ch(s, i) \in Special THEN "#" \o Code(Ch(s, i)) \o ";" ELSE Ch(s, i)) \o EscapeFrom(s, i + 1)
Escape(s) == EscapeFrom(s, 1)

RECURSIVE Size(_)
RECURSIVE SizeAll(_)
SizeAll(xs) == IF xs = <<>> THEN 0 ELSE Size(Head(xs)) + SizeAll(Tail(xs))
Size(x) == IF IsT(x) THEN 1 ELSE 1 + SizeAll(x[3])
Node(i, x) == ToString(i) \o "[\"" \o Escape(x[2]) \o "\"]"
\* edges below x, which has number i; its descendants are numbered i+1.. in depth-first order
RECURSIVE EdgeLines(_, _)
EdgeLines(x, i) ==
  IF IsT(x) THEN <<>>
  ELSE LET num == [k \in DOMAIN x[3] |-> i + 1 + SizeAll(SubSeq(x[3], 1, k - 1))] IN
       Flatten([k \in DOMAIN x[3] |->
          <<Node(i, x) \o " --> " \o Node(num[k], x[3][k])>> \o EdgeLines(x[3][k], num[k])])
MermaidText(t) == Unlines(<<"flowchart TD">> \o EdgeLines(t, 0))

(* ---------------------- reading the text back (for TLC) ------------------- *)
\* of a printed line: depth, glyph columns, and node text
RECURSIVE Blocks(_, _)
Blocks(line, i) ==
  IF i + 3 <= Len(line) /\ SubSeq(line, i, i + 3) \in {Mid, End, Bar, Gap}
  THEN <<SubSeq(line, i, i + 3)>> \o Blocks(line, i + 4) ELSE <<>>
DepthOf(line) == Len(Blocks(line, 1))
TextOf(line) == SubSeq(line, 4 * DepthOf(line) + 1, Len(line))
RECURSIVE Find(_, _, _)
Find(s, ch, i) == IF Ch(s, i) = ch THEN i ELSE Find(s, ch, i + 1)
\* the tree printed from line i on, at that depth: <<tree, next line>>
RECURSIVE ReadTree(_, _)
RECURSIVE ReadKids(_, _, _, _)
ReadKids(ls, i, d, acc) ==
  IF i <= Len(ls) /\ DepthOf(ls[i]) = d
  THEN LET r == ReadTree(ls, i) IN ReadKids(ls, r[2], d, Append(acc, r[1])) ELSE <<acc, i>>
ReadTree(ls, i) ==
  LET x == TextOf(ls[i])  d == DepthOf(ls[i]) IN
  IF Ch(x, 1) = "\"" THEN <<<<"T", SubSeq(x, 2, Len(x) - 1)>>, i + 1>>
  ELSE LET k == ReadKids(ls, i + 1, d + 1, <<>>) IN
       <<<<"N", SubSeq(x, 2, Find(x, ">", 1) - 1), k[1]>>, k[2]>>
\* entity codes back to characters
Uncode(x) == CHOOSE ch \in Special : Code(ch) = x
RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "#" THEN LET j == Find(s, ";", i) IN Uncode(SubSeq(s, i + 1, j - 1)) \o DecodeFrom(s, j + 1)
  ELSE Ch(s, i) \o DecodeFrom(s, i + 1)
Decode(s) == DecodeFrom(s, 1)
Unescaped(s) == \E i \in 1..Len(s) : Ch(s, i) \in Special \ {"#", ";"}
=============================================================================
