------------------------------ MODULE MCRender ------------------------------
(* The renderings of all small trees can be read back; escaping is injective   *)
(* and safe for all short labels.                                             *)
EXTENDS Render, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANTS Spine, Wide
VARIABLES t, lab
vars == <<t, lab>>
Leafs == {<<"T", "x">>}
Nodes1(kids) == {<<"N", "s", <<>>>>} \cup {<<"N", "s", <<x>>>> : x \in kids} \cup {<<"N", "a", <<x, y>>>> : x \in kids, y \in kids}
N1 == Nodes1(Leafs)
N2 == Nodes1(Leafs \cup N1)
N3 == Nodes1(Leafs \cup N2)
W3 == {<<"N", "w", <<x, y, z>>>> : x \in Leafs \cup N1, y \in Leafs \cup N1, z \in Leafs \cup N1}
RECURSIVE Spines(_)
Spines(k) == IF k = 0 THEN {<<"N", "e", <<>>>>, <<"N", "e", <<<<"T", "y">>>>>>}
             ELSE LET S == Spines(k - 1)  l == <<"T", "x">> IN
                  {<<"N", "s", <<x>>>> : x \in S} \cup {<<"N", "l", <<x, l>>>> : x \in S} \cup {<<"N", "r", <<l, x>>>> : x \in S}
Trees == N3 \cup Spines(Spine) \cup (IF Wide THEN W3 ELSE {})
Labels3 == UNION {[1..k -> Special \cup {"a", "3", "4"}] : k \in 0..2}
Str(f) == Concat([i \in DOMAIN f |-> f[i]])
Init == (t \in Trees /\ lab = "") \/ (t = <<"T", "x">> /\ lab \in {Str(f) : f \in Labels3})
Spec == Init /\ [][FALSE]_vars
ReadsBack == IsN(t) => ReadTree(Printed(t), 1) = <<t, Len(Printed(t)) + 1>>
OneLinePerNode == Len(Printed(t)) = Size(t)
\* the glyphs: a bar in a column says that the ancestor there has further children below
Glyphs == LET ls == Printed(t) IN \A i \in DOMAIN ls : \A k \in 1..DepthOf(ls[i]) :
   LET b == Blocks(ls[i], 1)[k]
       more == \E j \in (i + 1)..Len(ls) : DepthOf(ls[j]) = k /\ \A m \in (i + 1)..j : DepthOf(ls[m]) >= k
   IN (b \in {Mid, Bar}) <=> more
OneEdgePerPair == Len(EdgeLines(t, 0)) = Size(t) - 1
EscapeSafe == ~Unescaped(Escape(lab)) /\ Decode(Escape(lab)) = lab
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({[mode |-> "build", tree |-> x] : x \in Trees}))
            /\ t = <<"T", "x">> /\ lab = ""
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
