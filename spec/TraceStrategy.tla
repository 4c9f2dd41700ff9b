---------------------------- MODULE TraceStrategy ----------------------------
(***************************************************************************)
(* Recorded questions and answers of a built-in strategy are behaviours of    *)
(* Strategy.  Events: <<p, d, a>>: production p at depth d answered with       *)
(* alternative a; <<0, m, 0>>: the maximum depth was set to m.                 *)
(***************************************************************************)
EXTENDS Strategy, Json, IOUtils
CONSTANT Kind
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, max, seen, free, fin
vars == <<c, l, max, seen, free, fin>>
Case == Trace[c]
Ev == Case.events[l]
Rhs(p) == Case.g[p][2]
Init == /\ c \in 1..Len(Trace) /\ l = 1 /\ fin = "run"
        /\ max = Case.strat.max
        /\ seen = <<>> /\ free = <<>>
Ready == fin = "run" /\ Case.outcome = "ok" /\ l <= Len(Case.events)
SetMax == Ready /\ Ev[1] = 0 /\ max' = Ev[2] /\ l' = l + 1 /\ UNCHANGED <<c, seen, free, fin>>
Allowed == IF Kind = "depth" THEN DepthAllowed(Rhs(Ev[1]), max, Ev[2]) ELSE CoverAllowed(Rhs(Ev[1]), seen, Ev[1])
\* the choice is unrestricted: there, every alternative has to be possible
Free == IF Kind = "depth" THEN Ev[2] < max ELSE SeenOf(seen, Ev[1]) = DOMAIN Rhs(Ev[1])
FreeOf(p) == IF p \in DOMAIN free THEN free[p] ELSE <<0, {}>>
AskOk == Ev[3] \in Allowed
Ask == /\ (Ready /\ Ev[1] # 0) = TRUE /\ AskOk = TRUE
       /\ seen' = IF Kind = "cover" THEN CoverNote(seen, Ev[1], Ev[3]) ELSE seen
       /\ free' = IF Free THEN (Ev[1] :> <<FreeOf(Ev[1])[1] + 1, FreeOf(Ev[1])[2] \cup {Ev[3]}>>) @@ free ELSE free
       /\ l' = l + 1 /\ UNCHANGED <<c, max, fin>>
AllReached == \A p \in DOMAIN free :
   free[p][1] >= 60 * Len(Rhs(p)) => free[p][2] = DOMAIN Rhs(p)
\* a grammar in which every used name has productions, and every production a non-empty
\* alternative made only of terminals
Escapes == /\ Len(Case.g) > 0 /\ Undefined(Case.g) = {}
           /\ \A p \in DOMAIN Case.g : IsN(Case.g[p][1]) /\ \E a \in TermAlts(Rhs(p)) : Rhs(p)[a] # <<>>
GenOk == (Kind = "depth" /\ Case.mode = "generate" /\ Escapes) =>
   /\ \A k \in DOMAIN Case.results : Case.results[k][1] = "ok"
   /\ \A k \in DOMAIN Case.events : Case.events[k][2] <= max
AtEnd == fin = "run" /\ Case.outcome = "ok" /\ l > Len(Case.events)
Accept == AtEnd /\ (AllReached /\ GenOk) = TRUE /\ fin' = "ok" /\ UNCHANGED <<c, l, max, seen, free>>
Why == CASE Case.outcome # "ok" -> Case.outcome
         [] l <= Len(Case.events) -> "an alternative the strategy may not choose"
         [] ~AllReached -> "an alternative is never chosen"
         [] OTHER -> "bounded generation failed or went deeper than its bound"
Reject == /\ fin = "run"
          /\ \/ Case.outcome # "ok"
             \/ Ready /\ Ev[1] # 0 /\ AskOk = FALSE
             \/ AtEnd /\ (AllReached /\ GenOk) = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ fin' = "bad" /\ UNCHANGED <<c, l, max, seen, free>>
Next == SetMax \/ Ask \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
