----------------------------- MODULE TraceLong ------------------------------
(***************************************************************************)
(* The iterator machine of TraceParse over runs of thousands of trees.  A    *)
(* record holds, for every tree handed out, the position at which that tree   *)
(* was handed out first (`ids`), and a selection of the trees in full          *)
(* (`kept`, pairs of position and tree).  The machine hands out a block of      *)
(* trees per step: `l` is the number handed out so far.                        *)
(***************************************************************************)
EXTENDS Forest, Json, IOUtils
CONSTANT Mode       \* "complete" (C02), "stream" (C03)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Block == 1000

VARIABLES c, l, st
vars == <<c, l, st>>
Case == Trace[c]
Tab == Table(Case.g)
StartName == Case.start[2]
HasStart == IsN(Case.start) /\ StartName \in DOMAIN Tab
Total == IF HasStart THEN NumTrees(Tab, StartName, Case.input) ELSE 0
Normal == Case.outcome = "ok" /\ Case.built
Min(a, b) == IF a <= b THEN a ELSE b
Upto == Min(l + Block, Len(Case.ids))

Init == c \in 1..Len(Trace) /\ l = 0 /\ st = "run"
Kept == {k \in DOMAIN Case.kept : Case.kept[k][1] \in (l+1)..Upto}
ReturnOk ==
  /\ Normal /\ l < Len(Case.ids) /\ HasStart
  /\ \A i \in (l+1)..Upto : Case.ids[i] = i
  /\ \A k \in Kept : IsDerivation(Tab, StartName, Case.input, Nested(Case.kept[k][2]))
Return == st = "run" /\ ReturnOk = TRUE /\ l' = Upto /\ UNCHANGED <<c, st>>

AtEnd == Normal /\ l = Len(Case.ids)
EndOk == /\ AtEnd /\ Case.ended
         /\ IF Mode = "complete" THEN l = Total
            ELSE /\ HasStart => ~Infinite(Tab, Case.input, StartName)
                 /\ (l = 0) <=> (~HasStart \/ MinHeight(Tab, Case.input, StartName) = -1)
StopOk == /\ AtEnd /\ ~Case.ended /\ l >= Case.limit
          /\ Mode = "complete" => Total >= l
Finish == st = "run" /\ (EndOk \/ StopOk) = TRUE /\ st' = "ok" /\ UNCHANGED <<c, l>>

Why == CASE Case.outcome # "ok" -> Case.outcome
         [] ~Case.built -> "no parser for a valid grammar"
         [] l < Len(Case.ids) /\ (\E i \in (l+1)..Upto : Case.ids[i] # i) -> "a tree is returned twice"
         [] l < Len(Case.ids) -> "a returned tree is not a derivation of the input"
         [] Mode = "stream" -> "wrong end of an infinitely ambiguous parse"
         [] OTHER -> "number of returned trees is not the number of derivations"
Reject == /\ st = "run" /\ (ReturnOk \/ EndOk \/ StopOk) = FALSE
          /\ PrintT(<<"BAD", c, Why>>) /\ st' = "bad" /\ UNCHANGED <<c, l>>
Next == Return \/ Finish \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
