----------------------------- MODULE MCGenerate -----------------------------
(* All behaviours of the generation machine on a universe of small grammars:  *)
(* every choice of the strategy, every verdict of the callback, within        *)
(* MaxChoices choices and MaxRejects rejections.                              *)
EXTENDS Generate, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANTS MaxChoices, MaxRejects, Full
VARIABLES g, st, out, phase, nc, nr, log
vars == <<g, st, out, phase, nc, nr, log>>
t(x) == <<"T", x>>
n(x) == <<"N", x>>
AltS == {<<n("a")>>, <<n("a"), n("a")>>, <<t("x"), n("a")>>, <<t("y")>>, <<n("s"), t("z")>>, <<n("u"), n("a")>>, <<>>}
RhsA == {<<<<t("p")>>>>, <<<<t("p")>>, <<t("q")>>>>, <<<<t("p")>>, <<n("a"), t("q")>>>>, <<<<t("")>>, <<n("s")>>>>,
         <<<<n("a")>>>>, <<<<>>, <<t("p")>>>>, <<<<>>>>, <<>>}
RhsS == {<<x>> : x \in AltS} \cup {<<x, y>> : x \in AltS, y \in AltS}
Universe == {<<<<n("s"), x>>, <<n("a"), y>>>> : x \in RhsS, y \in RhsA}
       \cup {<<<<n("s"), x>>, <<n("a"), <<<<t("p")>>>>>>, <<n("a"), <<<<t("q")>>, <<n("a"), n("a")>>>>>>>> : x \in RhsS}
       \cup {<<>>, <<<<t("s"), <<<<t("x")>>>>>>>>, <<<<n("a"), <<<<n("s")>>>>>>, <<n("s"), <<<<n("a")>>, <<t("x"), n("u")>>>>>>>>,
             <<<<n("a"), <<<<n("s")>>>>>>, <<n("s"), <<<<n("b")>>>>>>, <<n("b"), <<<<n("a")>>, <<t("e")>>>>>>>>}

Init == /\ g \in Universe /\ out = "" /\ nc = 0 /\ nr = 0 /\ log = <<>>
        /\ phase = IF Derivable(g) THEN "run" ELSE "refused"
        /\ st = IF Derivable(g) THEN Begin(g) ELSE <<>>
Choose == /\ phase = "run" /\ nc < MaxChoices
          /\ \E p \in DOMAIN g : \E a \in DOMAIN g[p][2] :
               MayChoose(g, st, p, a) = TRUE /\ st' = DoChoose(g, st, p, a)
          /\ nc' = nc + 1 /\ UNCHANGED <<g, out, phase, nr, log>>
\* log: the accepted expansions, for AcceptedOnly
Accept == /\ phase = "run" /\ Offering(st) = TRUE
          /\ log' = Append(log, <<Top(st).n, Top(st).txt>>)
          /\ st' = DoAccept(g, st)
          /\ IF Len(st) = 1 THEN out' = Top(st).txt /\ phase' = "done" ELSE UNCHANGED <<out, phase>>
          /\ UNCHANGED <<g, nc, nr>>
Rejected == /\ phase = "run" /\ Offering(st) = TRUE /\ nr < MaxRejects
            /\ st' = DoReject(st) /\ nr' = nr + 1 /\ UNCHANGED <<g, out, phase, nc, log>>
GiveUp == phase = "run" /\ MayGiveUp(g, st) = TRUE /\ phase' = "error" /\ UNCHANGED <<g, st, out, nc, nr, log>>
Next == Choose \/ Accept \/ Rejected \/ GiveUp
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ----------------------------- *)
InLanguage == phase = "done" => Sentence(g, out)
\* every accepted text is derivable from the name it was accepted for
AcceptedDerivable == \A k \in DOMAIN log :
   Derives(Table(UndefAsText(g)), log[k][1], log[k][2])
DepthIsNesting == \A k \in DOMAIN st : st[k].d = k - 1
RefusedRight == phase = "refused" => (Len(g) = 0 \/ ~IsN(g[1][1]) \/ g[1][1][2] \notin Productive(Table(g)))
\* from a derivable grammar with non-empty alternatives the machine is never stuck
NotStuck == phase = "run" => Asking(st) \/ Offering(st)
StartAccepted == phase = "done" => log[Len(log)] = <<g[1][1][2], out>>

(* ------------------------------ replay cases ----------------------------- *)
Scripts == {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 0, 0, 1>>} \cup
           (IF Full THEN [1..5 -> {0, 1}] ELSE {})
Verdicts == {<<>>, <<0>>, <<1, 0>>, <<1, 1, 0>>} \cup (IF Full THEN {<<0, 0>>, <<0, 1, 0>>, <<1, 0, 0>>, <<1, 1, 1, 0>>} ELSE {})
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({[g |-> gr, entry |-> IF v = <<>> THEN "strat" ELSE "cbs",
                  strat |-> [kind |-> "script", picks |-> s], budget |-> 9, verdicts |-> v]
                  : gr \in Universe, s \in Scripts, v \in Verdicts}))
            /\ g = <<>> /\ st = <<>> /\ out = "" /\ phase = "" /\ nc = 0 /\ nr = 0 /\ log = <<>>
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
