----------------------------- MODULE MCValidate -----------------------------
(* all grammars with at most MaxProds productions over two defined-or-not     *)
(* names, a terminal, and right hand sides of at most two short alternatives  *)
EXTENDS Validate, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANT MaxProds
LhsU == {<<"N", "a">>, <<"N", "b">>, <<"T", "a">>}
AltU == {<<>>, <<<<"T", "b">>>>, <<<<"N", "a">>>>, <<<<"N", "b">>>>, <<<<"N", "c">>>>,
         <<<<"T", "a">>, <<"N", "c">>>>, <<<<"N", "a">>, <<"T", "x">>, <<"N", "b">>>>}
RhsU == {<<>>} \cup {<<x>> : x \in AltU} \cup {<<x, y>> : x \in AltU, y \in AltU}
RhsS == {<<>>} \cup {<<x>> : x \in AltU}
P1 == {<<l, r>> : l \in LhsU, r \in RhsU}
P2 == {<<l, r>> : l \in LhsU, r \in RhsS}
Universe == {<<>>} \cup {<<x>> : x \in P1} \cup {<<x, y>> : x \in P1, y \in P2}
            \cup (IF MaxProds >= 3 THEN {<<x, y, z>> : x \in P2, y \in P2, z \in P2} ELSE {})
Init == \E gr \in Universe : InitFor(gr)
Spec == Init /\ [][Next]_vars
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({[g |-> gr] : gr \in Universe}))
            /\ InitFor(<<>>)
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
