----------------------------- MODULE TraceRepro -----------------------------
(***************************************************************************)
(* Recorded histories of seeded generation, possibly of several processes     *)
(* (one history of events after the other, slots renamed) and threads.        *)
(*   <<"new", slot, key>>   <<"draw", slot, <<kind, text>>>>                  *)
(* A case may also carry `spread`: the first sentences of instances that      *)
(* differ only in the seed, for a grammar with at least two sentences; then   *)
(* not all of them are equal.                                                 *)
(***************************************************************************)
EXTENDS Repro, Gram, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, slots, memo, fin
vars == <<c, l, slots, memo, fin>>
Case == Trace[c]
Ev == Case.events[l]
Init == c \in 1..Len(Trace) /\ l = 1 /\ slots = <<>> /\ memo = <<>> /\ fin = "run"
Ready == fin = "run" /\ Case.outcome = "ok" /\ l <= Len(Case.events)
New == Ready /\ Ev[1] = "new" /\ slots' = Create(slots, Ev[2], Ev[3]) /\ l' = l + 1 /\ UNCHANGED <<c, memo, fin>>
DrawOk == Consistent(memo, Point(slots, Ev[2]), Ev[3])
DrawOn == /\ Ready /\ Ev[1] = "draw" /\ DrawOk = TRUE
          /\ memo' = Remember(memo, Point(slots, Ev[2]), Ev[3]) /\ slots' = Draw(slots, Ev[2])
          /\ l' = l + 1 /\ UNCHANGED <<c, fin>>
\* grammars whose start has at least two different alternatives made of terminals only, all
\* reachable in one step with a probability bounded away from 0 and 1
SeveralSentences == LET alts == Case.g[1][2] IN
   /\ \A a \in DOMAIN alts : \A k \in DOMAIN alts[a] : IsT(alts[a][k])
   /\ Cardinality({Concat([k \in DOMAIN alts[a] |-> alts[a][k][2]]) : a \in DOMAIN alts}) >= 2
SpreadOk == \A s \in DOMAIN Case.spread :
   (SeveralSentences /\ Len(Case.spread[s]) >= 48) => Cardinality(Range(Case.spread[s])) >= 2
AtEnd == fin = "run" /\ Case.outcome = "ok" /\ l > Len(Case.events)
Accept == AtEnd /\ SpreadOk = TRUE /\ fin' = "ok" /\ UNCHANGED <<c, l, slots, memo>>
Why == CASE Case.outcome # "ok" -> Case.outcome
         [] l <= Len(Case.events) -> "the same seed gave a different sentence"
         [] OTHER -> "different seeds never reach different sentences"
Reject == /\ fin = "run"
          /\ \/ Case.outcome # "ok"
             \/ Ready /\ Ev[1] = "draw" /\ DrawOk = FALSE
             \/ AtEnd /\ SpreadOk = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ fin' = "bad" /\ UNCHANGED <<c, l, slots, memo>>
Next == New \/ DrawOn \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
