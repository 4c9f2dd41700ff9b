------------------------------ MODULE TraceEdit ------------------------------
(***************************************************************************)
(* Recorded edit histories are behaviours of Edit.  After each operation the  *)
(* grammar is observed through its iterators and lengths; clones taken on the *)
(* way keep their value; in the end the edited grammar behaves like one built *)
(* afresh from the same content.                                             *)
(* Beside Edit's operations: "clone" (keep a copy), "swap" (continue with the *)
(* last copy, keep the other).                                               *)
(***************************************************************************)
EXTENDS Edit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, g, copies, fin
vars == <<c, l, g, copies, fin>>
Case == Trace[c]
Op == Case.ops[l]
Seen == Case.seen[l]
Init == c \in 1..Len(Trace) /\ l = 1 /\ g = Case.g /\ copies = <<>> /\ fin = "run"
Ready == fin = "run" /\ Case.outcome = "ok" /\ l <= Len(Case.ops)
After == CASE Op[1] = "clone" -> <<g, Append(copies, g), <<>>>>
           [] Op[1] = "swap" /\ copies # <<>> -> <<copies[Len(copies)], [copies EXCEPT ![Len(copies)] = g], <<>>>>
           [] OTHER -> LET r == Apply(g, Op) IN <<r[1], copies, r[2]>>
ObservedOk(s, v, cs, ret) ==
  /\ s.ret = ret
  /\ s.g = v
  /\ s.lens = [i \in DOMAIN v |-> Len(v[i][2])]
  /\ s.empty = [i \in DOMAIN v |-> IF Len(v[i][2]) = 0 THEN 1 ELSE 0]
  /\ s.copies = cs
  /\ s.eq = [i \in DOMAIN cs |-> IF cs[i] = v THEN 1 ELSE 0]
  /\ s.fresh = 1                    \* equal to, and hashing like, a fresh value with this content
StepOk == LET a == After IN ObservedOk(Seen, a[1], a[2], a[3])
Step == /\ Ready = TRUE /\ StepOk = TRUE
        /\ g' = After[1] /\ copies' = After[2] /\ l' = l + 1 /\ UNCHANGED <<c, fin>>
AtEnd == fin = "run" /\ Case.outcome = "ok" /\ l > Len(Case.ops)
\* values are equal exactly when they read the same: ["kind", x, y, x == y, y == x, x # y]
Told(b) == IF b THEN 1 ELSE 0
\* ["remove", list, x, list afterwards, what was returned]
CompareOk(e) == IF e[1] = "remove" THEN e[4] = RemoveFirst(e[2], e[3]) /\ e[5] = Removed(e[2], e[3]) ELSE e[4] = Told(e[2] = e[3]) /\ e[5] = e[4] /\ e[6] = 1 - e[4]
NearOk == \A i \in DOMAIN Case.near : CompareOk(Case.near[i])
EndOk == Case.behaves = Case.behavesFresh /\ NearOk
Accept == AtEnd /\ EndOk = TRUE /\ fin' = "ok" /\ UNCHANGED <<c, l, g, copies>>
Why == CASE Case.outcome # "ok" -> Case.outcome
         [] l <= Len(Case.ops) -> "operation " \o Op[1] \o " did not act like the list operation"
         [] ~NearOk -> "equality or removal does not go by the content"
         [] OTHER -> "the edited grammar behaves differently from a fresh one with the same content"
Reject == /\ fin = "run"
          /\ \/ Case.outcome # "ok"
             \/ Ready /\ StepOk = FALSE
             \/ AtEnd /\ EndOk = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ fin' = "bad" /\ UNCHANGED <<c, l, g, copies>>
Next == Step \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
