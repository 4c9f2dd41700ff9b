------------------------------ MODULE Strategy ------------------------------
(***************************************************************************)
(* The built-in strategies as state machines.  A strategy is asked with a     *)
(* production (an identity p and its alternatives) and a depth.               *)
(*   depth-bounded   state: the maximum depth                                 *)
(*   coverage-guided state: seen[p], the alternatives of p chosen so far      *)
(*   weighted        state: the two weights; the walk picks an index          *)
(***************************************************************************)
EXTENDS Gram
AllTerminals(alt) == \A k \in DOMAIN alt : IsT(alt[k])
TermAlts(rhs) == {a \in DOMAIN rhs : AllTerminals(rhs[a])}

\* depth-bounded: what may be chosen
DepthAllowed(rhs, max, d) == IF d >= max /\ TermAlts(rhs) # {} THEN TermAlts(rhs) ELSE DOMAIN rhs

\* coverage-guided
SeenOf(seen, p) == IF p \in DOMAIN seen THEN seen[p] ELSE {}
CoverAllowed(rhs, seen, p) ==
  LET s == SeenOf(seen, p) IN IF s = DOMAIN rhs THEN DOMAIN rhs ELSE DOMAIN rhs \ s
CoverNote(seen, p, a) == (p :> (SeenOf(seen, p) \cup {a})) @@ seen

\* weighted: the weight of each alternative, and the walk over cumulated weights
Mentions(alt, x) == \E k \in DOMAIN alt : alt[k] = x
Weights(lhs, rhs, wr, wn) == [a \in DOMAIN rhs |-> IF Mentions(rhs[a], lhs) THEN wr ELSE wn]
RECURSIVE Total(_)
Total(ws) == IF ws = <<>> THEN 0 ELSE Head(ws) + Total(Tail(ws))
RECURSIVE Walk(_, _, _)
Walk(ws, r, i) == IF r < ws[i] THEN i ELSE Walk(ws, r - ws[i], i + 1)
WeightAllowed(ws) == IF \A a \in DOMAIN ws : ws[a] = 0 THEN DOMAIN ws
                     ELSE {a \in DOMAIN ws : ws[a] > 0}
=============================================================================
