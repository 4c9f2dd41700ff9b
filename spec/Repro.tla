-------------------------------- MODULE Repro --------------------------------
(***************************************************************************)
(* Seeded generation as a set of independent streams.  An instance is a       *)
(* seeded source of sentences (a strategy, or a random generator handed to     *)
(* a seeded entry point); its i-th sentence is a function of the grammar, the     *)
(* kind of instance and the seed (together: its key) and i, whatever else     *)
(* happens.  `memo` remembers what was seen for <<key, i>>.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoInst == [key |-> 0, i |-> 0]
Slot(slots, s) == IF s \in DOMAIN slots THEN slots[s] ELSE NoInst
Create(slots, s, key) == (s :> [key |-> key, i |-> 0]) @@ slots
Draw(slots, s) == [slots EXCEPT ![s].i = @ + 1]
Point(slots, s) == <<slots[s].key, slots[s].i + 1>>
Consistent(memo, pt, res) == pt \notin DOMAIN memo \/ memo[pt] = res
Remember(memo, pt, res) == (pt :> res) @@ memo
=============================================================================
