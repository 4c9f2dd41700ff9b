------------------------------ MODULE MCRound -------------------------------
(* Reading what was formatted, for every small grammar over awkward names and  *)
(* terminals.                                                                 *)
EXTENDS Reader, Display, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANT Size
NamesU == {"", "a", ";", "'", "::=", "| <b"}
TermU == {"", "'", "\"", ";x", "<a>", "\n", "::="}
TU == {<<"N", nm>> : nm \in NamesU} \cup {<<"T", t>> : t \in TermU}
AltU == {<<x>> : x \in TU} \cup {<<x, y>> : x \in TU, y \in TU}
Rhs == {<<a>> : a \in AltU} \cup (IF Size > 1 THEN {<<a, b>> : a \in {<<x>> : x \in TU}, b \in AltU} ELSE {<<a, <<<<"T", "x">>>>>> : a \in AltU})
GU == {<<<< <<"N", nm>>, r>> >> : nm \in NamesU, r \in Rhs}
      \cup {<<<< <<"N", nm>>, <<a>> >>, << <<"N", mm>>, <<b>> >> >> : nm \in NamesU, mm \in {"a", ";"}, a \in {<<x>> : x \in TU}, b \in AltU}
ClassOf(ch) == IF ch \in {" ", "\n"} THEN "w" ELSE IF ch \in {"a", "b", "x"} THEN "a" ELSE "o"
Class(t) == [k \in DOMAIN t |-> ClassOf(t[k])]
VARIABLE g
vars == <<rvars, g>>
Init == \E gr \in GU : g = gr /\ LET t == ShowGram(gr) IN ReaderInit(t, Class(t), BNF, "grammar")
Spec == Init /\ [][Read /\ UNCHANGED g]_vars
Identity == Over => phase = "ok" /\ prods = g
InDomain == GramOk(g)
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({[what |-> "grammar", v |-> gr] : gr \in GU}))
            /\ g = <<>> /\ ReaderInit(<<>>, <<>>, BNF, "grammar")
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
