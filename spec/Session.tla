------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Sessions: a caller opens result iterators (slots) on parsers it shares    *)
(* between them, advances them in any order and drops them at any time.       *)
(* The only state is, per open slot, which parse it belongs to and how many   *)
(* results it has given; its next result is the next element of what that     *)
(* parse yields alone.                                                       *)
(*   Alone(key) = [seq |-> results, ended |-> TRUE if the list is complete]   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* slots: function from open slot to <<key, position>>
DoOpen(slots, s, key) == (s :> <<key, 0>>) @@ slots
DoDrop(slots, s) == [x \in DOMAIN slots \ {s} |-> slots[x]]
\* the results a Next may give: a singleton, or empty if not determined
NextResult(slots, s, Alone(_)) ==
  LET a == Alone(slots[s][1])  p == slots[s][2] IN
  IF p < Len(a.seq) THEN {a.seq[p + 1]} ELSE IF a.ended THEN {0} ELSE {}
DoNext(slots, s, Alone(_)) ==
  LET a == Alone(slots[s][1])  p == slots[s][2] IN
  [slots EXCEPT ![s] = <<@[1], IF p < Len(a.seq) THEN p + 1 ELSE p>>]
=============================================================================
