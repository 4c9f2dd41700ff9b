----------------------------- MODULE TraceParse -----------------------------
(***************************************************************************)
(* The result iterator of a parse, as the caller sees it, and its trace     *)
(* specification.  The machine of one parse has the variable `l`, the        *)
(* number of trees handed out so far, and the actions                        *)
(*                                                                          *)
(*   Return   hand out a derivation of the input not handed out before       *)
(*   End      allowed exactly when every derivation has been handed out      *)
(*   Stop     the caller stops asking (only after `limit` trees)             *)
(*                                                                          *)
(* Every recorded parse (one line of trace.ndjson) must be a behaviour of    *)
(* this machine.  Mode selects how much of each action's guard is            *)
(* enforced, one mode per property.                                          *)
(***************************************************************************)
EXTENDS Forest, Json, IOUtils

CONSTANT Mode       \* "sound" (C01), "complete" (C02), "stream" (C03)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, st
vars == <<c, l, st>>

Case == Trace[c]
Tab == Table(Case.g)
StartName == Case.start[2]
HasStart == IsN(Case.start) /\ StartName \in DOMAIN Tab
Tree(k) == Nested(Case.trees[k])

Dedup(tab) == [A \in DOMAIN tab |->
   LET s == tab[A] IN
   SelectSeq([i \in DOMAIN s |-> IF \E j \in 1..(i-1) : s[j] = s[i] THEN <<>> ELSE <<s[i]>>],
             LAMBDA x : x # <<>>)]
DedupTab(tab) == LET d == Dedup(tab) IN [A \in DOMAIN d |-> [i \in DOMAIN d[A] |-> d[A][i][1]]]

Total == IF HasStart THEN NumTrees(Tab, StartName, Case.input) ELSE 0

(* ------------------------------- the machine ---------------------------- *)
Init == c \in 1..Len(Trace) /\ l = 0 /\ st = "run"

Fresh(k) == \A m \in 1..(k-1) : Case.trees[m] # Case.trees[k]

Normal == Case.outcome = "ok" /\ Case.built

ReturnOk ==
  /\ Normal
  /\ l < Len(Case.trees)
  /\ HasStart
  /\ IsDerivation(Tab, StartName, Case.input, Tree(l + 1))
  /\ Mode = "sound" \/ Fresh(l + 1) \/ ~DistinctAlts(Tab)

Return == st = "run" /\ ReturnOk = TRUE /\ l' = l + 1 /\ UNCHANGED <<c, st>>

AtEnd == Normal /\ l = Len(Case.trees)

EndOk ==
  /\ AtEnd /\ Case.ended
  /\ CASE Mode = "sound" -> TRUE
       [] Mode = "complete" ->
            IF DistinctAlts(Tab) THEN l = Total
            ELSE /\ l <= Total
                 /\ HasStart => Cardinality(Range(Case.trees)) = NumTrees(DedupTab(Tab), StartName, Case.input)
       [] Mode = "stream" ->
            /\ HasStart => ~Infinite(Tab, Case.input, StartName)
            /\ (l = 0) <=> (~HasStart \/ MinHeight(Tab, Case.input, StartName) = -1)
StopOk ==
  /\ AtEnd /\ ~Case.ended /\ l >= Case.limit
  /\ CASE Mode = "sound" -> TRUE
       [] Mode = "complete" -> Total >= l
       [] Mode = "stream" ->
            LET h == MinHeight(Tab, Case.input, StartName) IN
            IF Infinite(Tab, Case.input, StartName) /\ ~\E k \in 1..l : Height(Tree(k)) = h
            THEN \A k \in 1..l : Height(Tree(k)) <= FairHeight(Tab, Case.input, StartName, h)
            ELSE TRUE

Finish == st = "run" /\ (EndOk \/ StopOk) = TRUE /\ st' = "ok" /\ UNCHANGED <<c, l>>

Why == CASE Case.outcome # "ok" -> Case.outcome
         [] ~Case.built -> "no parser for a valid grammar"
         [] l < Len(Case.trees) /\ (~HasStart \/ ~IsDerivation(Tab, StartName, Case.input, Tree(l + 1)))
              -> "a returned tree is not a derivation of the input"
         [] l < Len(Case.trees) -> "a tree is returned twice"
         [] Mode = "stream" -> "wrong end of an infinitely ambiguous parse"
         [] OTHER -> "number of returned trees is not the number of derivations"
Reject == /\ st = "run"
          /\ (ReturnOk \/ EndOk \/ StopOk) = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ st' = "bad" /\ UNCHANGED <<c, l>>

Next == Return \/ Finish \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
