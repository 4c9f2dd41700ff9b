------------------------------- MODULE Earley -------------------------------
(***************************************************************************)
(* The chart parser of src/earley: an agenda of traversals ("items"), a     *)
(* table of items waiting for a name (incomplete), a table of finished       *)
(* items (complete), and the trees handed out so far.                        *)
(*                                                                          *)
(* An item is <<r, i, j, kids>>: rule r (one left hand side, one              *)
(* alternative), started at offset i, matched up to offset j, with kids the   *)
(* trees matched so far.  The code's arena ids are the values themselves      *)
(* here: the edge and root tables of the code exist to make equal values      *)
(* share one id.                                                             *)
(*                                                                          *)
(* One action per branch of the agenda loop: Predict, Scan, Complete.  With   *)
(* AnyOrder the agenda is processed in every possible order; the results may  *)
(* not depend on it.  Without it the agenda is a queue, as in the code.       *)
(***************************************************************************)
EXTENDS Gram

CONSTANTS AnyOrder,   \* BOOLEAN
          MaxOut,     \* stop after this many trees (cyclic grammars)
          MaxSteps    \* bound on agenda steps (cyclic grammars); 0 = none

VARIABLES g, w, agenda, seen, incomplete, complete, out, steps
vars == <<g, w, agenda, seen, incomplete, complete, out, steps>>

RECURSIVE RulesOf(_)
RulesOf(gr) == IF gr = <<>> THEN <<>>
               ELSE [a \in DOMAIN Head(gr)[2] |-> <<Head(gr)[1], Head(gr)[2][a]>>] \o RulesOf(Tail(gr))
Rules == RulesOf(g)
Lhs(it) == Rules[it[1]][1]
Alt(it) == Rules[it[1]][2]
Root(r, i) == <<r, i, i, <<>>>>
Finished(it) == Len(it[4]) = Len(Alt(it))
Want(it) == Alt(it)[Len(it[4]) + 1]
TreeOf(it) == <<"N", Lhs(it)[2], it[4]>>
Advance(it, kid, j) == <<it[1], it[2], j, Append(it[4], kid)>>
RulesFor(x) == {r \in DOMAIN Rules : Rules[r][1] = x}

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

Push(its) == /\ agenda' = agenda \o SetSeq(its \ seen)
             /\ seen' = seen \cup its
\* the agenda without its k-th element
Without(k) == SubSeq(agenda, 1, k - 1) \o SubSeq(agenda, k + 1, Len(agenda))
PushAfter(k, its) == /\ agenda' = Without(k) \o SetSeq(its \ seen)
                     /\ seen' = seen \cup its

StartTerm == g[1][1]

InitFor(gr, input) ==
  /\ g = gr /\ w = input
  /\ LET R == RulesOf(gr)
         its == {<<r, 0, 0, <<>>>> : r \in {q \in DOMAIN R : R[q][1] = gr[1][1]}}
     IN agenda = SetSeq(its) /\ seen = its
  /\ incomplete = {} /\ complete = {} /\ out = <<>> /\ steps = 0

Running == Len(out) < MaxOut /\ (MaxSteps = 0 \/ steps < MaxSteps)

\* Predict: remember who waits, start the rules of the wanted name at this
\* offset, and advance over what has already finished there
Predict(k) ==
  LET it == agenda[k] IN
  /\ ~Finished(it) /\ IsN(Want(it))
  /\ incomplete' = incomplete \cup {it}
  /\ PushAfter(k, {Root(r, it[3]) : r \in RulesFor(Want(it))}
                  \cup {Advance(it, TreeOf(d), d[3]) : d \in {e \in complete : Lhs(e) = Want(it) /\ e[2] = it[3]}})
  /\ UNCHANGED <<complete, out>>
\* Scan: a terminal that is the next piece of the input
Scan(k) ==
  LET it == agenda[k] IN
  /\ ~Finished(it) /\ IsT(Want(it))
  /\ PushAfter(k, IF At(w, it[3], Want(it)[2])
                  THEN {Advance(it, Want(it), it[3] + Len(Want(it)[2]))} ELSE {})
  /\ UNCHANGED <<incomplete, complete, out>>
\* Complete: advance everybody who waits for this name at this offset
Complete(k) ==
  LET it == agenda[k] IN
  /\ Finished(it)
  /\ complete' = complete \cup {it}
  /\ PushAfter(k, {Advance(d, TreeOf(it), it[3]) : d \in {e \in incomplete : Want(e) = Lhs(it) /\ e[3] = it[2]}})
  /\ out' = IF Lhs(it) = StartTerm /\ it[2] = 0 /\ it[3] = Len(w) THEN Append(out, TreeOf(it)) ELSE out
  /\ UNCHANGED incomplete

Step == /\ agenda # <<>> /\ Running
        /\ \E k \in (IF AnyOrder THEN DOMAIN agenda ELSE {1}) : Predict(k) \/ Scan(k) \/ Complete(k)
        /\ steps' = IF MaxSteps = 0 THEN 0 ELSE steps + 1
        /\ UNCHANGED <<g, w>>

(* -------------------------------- properties ----------------------------- *)
Done == agenda = <<>>
Tb == Table(g)
\* every item is a partial derivation of exactly its span (C01)
ItemsSound ==
  \A it \in complete :
    /\ WellFormed(Tb, TreeOf(it))
    /\ Yield(TreeOf(it)) = SubSeq(w, it[2] + 1, it[3])
OutSound == \A k \in DOMAIN out : IsDerivation(Tb, StartTerm[2], w, out[k])
\* no tree twice, unless an alternative is written twice (C02, C03)
OutDistinct == DistinctAlts(Tb) => Cardinality(Range(out)) = Len(out)
\* when the agenda is empty every derivation has been handed out (C02)
OutComplete == Done => /\ Len(out) = NumTrees(Tb, StartTerm[2], w)
                       /\ TreesUpTo(Tb, w, 3, StartTerm[2], 0, Len(w)) \subseteq Range(out)
\* nothing is handed out for an input outside the language
OutOnlyIfDerives == (out # <<>>) => Derives(Tb, StartTerm[2], w)
=============================================================================
