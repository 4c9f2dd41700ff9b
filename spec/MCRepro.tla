------------------------------- MODULE MCRepro -------------------------------
(* All interleavings of two instances over two keys: if every instance reads   *)
(* its own stream, every history is consistent.  With Shared = TRUE all        *)
(* instances draw from one stream, and TLC finds the inconsistency.            *)
EXTENDS Repro, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANTS MaxOps, Shared
VARIABLES slots, memo, n, pos, bad
vars == <<slots, memo, n, pos, bad>>
Stream(key, i) == ((key * 5) + (i * i) + (i * key)) % 3
Init == slots = <<>> /\ memo = <<>> /\ n = 0 /\ pos = 0 /\ bad = FALSE
New(s, k) == n < MaxOps /\ slots' = Create(slots, s, k) /\ n' = n + 1 /\ UNCHANGED <<memo, pos, bad>>
DrawOn(s) == /\ n < MaxOps /\ s \in DOMAIN slots
             /\ LET pt == Point(slots, s)
                    res == IF Shared THEN Stream(1, pos) ELSE Stream(pt[1], pt[2])
                IN /\ bad' = (bad \/ ~Consistent(memo, pt, res))
                   /\ memo' = Remember(memo, pt, res)
             /\ slots' = Draw(slots, s) /\ pos' = pos + 1 /\ n' = n + 1
Next == \E s \in 1..2 : DrawOn(s) \/ \E k \in 1..2 : New(s, k)
Spec == Init /\ [][Next]_vars
Reproducible == ~bad
(* ------------------------------ replay cases ----------------------------- *)
Ops == {<<"new", s, k>> : s \in {1, 2}, k \in {1, 2}} \cup {<<"draw", s, 0>> : s \in {1, 2}} \cup {<<"noise", 1, 0>>}
Hists == {h \in [1..MaxOps -> Ops] : h[1] = <<"new", 1, 1>> /\ h[MaxOps][1] = "draw"
            /\ \A i \in 1..MaxOps : h[i][1] = "draw" => \E j \in 1..(i - 1) : h[j][1] = "new" /\ h[j][2] = h[i][2]}
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({[hist |-> h] : h \in Hists}))
            /\ Init
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
