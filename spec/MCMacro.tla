------------------------------- MODULE MCMacro -------------------------------
(* The macro machine builds what is written, for all small grammars; the       *)
(* token sequences of that universe are compiled and run.                      *)
EXTENDS Macro, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANT Size
VARIABLES w, toks, i, m
vars == <<w, toks, i, m>>
n(x) == <<"N", x>>
t(x) == <<"T", x>>
Alt0 == {<<n("b")>>, <<t("x"), n("a")>>}
Alt1 == Alt0 \cup {<<t("")>>, <<n("a"), n("b"), t("y")>>}
Rhs0 == {<<x>> : x \in Alt0} \cup {<<x, y>> : x \in Alt0, y \in Alt0}
Rhs1 == {<<x>> : x \in Alt1} \cup {<<x, y>> : x \in Alt1, y \in Alt1} \cup {<<x, y, z>> : x \in Alt0, y \in Alt0, z \in Alt0}
Grams == {<<<<n("a"), r>>>> : r \in Rhs1}
    \cup {<<<<n("a"), r>>, <<n("b"), s>>>> : r \in Rhs0, s \in Rhs0}
    \cup {<<<<n("a"), <<x>>>>, <<n("b"), <<y>>>>, <<n("c"), <<z>>>>>> : x \in Alt0, y \in Alt0, z \in Alt0}
    \cup {<<<<n("a"), <<x, y>>>>, <<n("b"), <<y>>>>, <<n("a"), <<x>>>>, <<n("d"), <<z, x>>>>>> : x \in Alt0, y \in Alt0, z \in Alt0}
    \cup (IF Size > 1 THEN {<<<<n("a"), r>>, <<n("b"), s>>, <<n("c"), q>>>> : r \in Rhs0, s \in Rhs0, q \in Rhs0} ELSE {})
RECURSIVE BarJoin(_)
BarJoin(as) == IF Len(as) = 1 THEN as[1] ELSE Head(as) \o <<<<"|">>>> \o BarJoin(Tail(as))
ProdToks(p) == <<p[1], <<"=">>>> \o BarJoin(p[2])
RECURSIVE GramToks(_)
GramToks(gr) == IF Len(gr) = 1 THEN ProdToks(gr[1]) ELSE ProdToks(Head(gr)) \o <<<<";">>>> \o GramToks(Tail(gr))
Init == w \in Grams /\ toks = GramToks(w) /\ i = 1 /\ m = Empty
Step == i <= Len(toks) /\ m' = Feed(m, toks, i) /\ i' = i + 1 /\ UNCHANGED <<w, toks>>
Spec == Init /\ [][Step]_vars
BuildsWritten == i > Len(toks) => Close(m).prods = w
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({[what |-> "grammar", toks |-> GramToks(x)] : x \in Grams}))
            /\ w = <<>> /\ toks = <<>> /\ i = 1 /\ m = Empty
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
