------------------------------ MODULE MCCyclic ------------------------------
(* Earley over every cyclic grammar of the small universe, for the first       *)
(* MaxOut trees.                                                              *)
EXTENDS Earley, Forest, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANTS Inputs, AAlts
Sym == {<<"N", "s">>, <<"N", "a">>, <<"T", "x">>, <<"T", "">>}
AltU == {<<x>> : x \in Sym} \cup {<<x, y>> : x \in Sym \ {<<"T", "">>}, y \in Sym \ {<<"T", "">>}}
Rhs1 == {<<x>> : x \in AltU}
Rhs2 == {SetSeq(S) : S \in {T \in SUBSET AltU : Cardinality(T) = 2}}
GU == {<<<< <<"N", "s">>, rs>>, << <<"N", "a">>, ra>> >> : rs \in Rhs2, ra \in Rhs1 \cup (IF AAlts > 1 THEN Rhs2 ELSE {})}
Universe == {gr \in GU : Cyclic(Table(gr))}
Init == \E p \in {q \in Universe \X Inputs : Infinite(Table(q[1]), q[2], "s")} : InitFor(p[1], p[2])
Spec == Init /\ [][Step]_vars
\* an infinitely ambiguous input keeps yielding trees: neither does the agenda run
\* empty nor do MaxSteps agenda steps pass before MaxOut trees are out
Streams == (Done \/ steps >= MaxSteps) => (Len(out) >= MaxOut \/ ~Infinite(Tb, w, "s"))
\* when the agenda runs empty there is a tree exactly if there is a derivation
EndsRight == Done => ((out = <<>>) <=> (MinHeight(Tb, w, "s") = -1))
\* and the derivation of smallest height is among the first trees
Smallest == LET h == MinHeight(Tb, w, "s") IN
            (\E k \in DOMAIN out : Height(out[k]) > FairHeight(Tb, w, "s", h)) => \E k \in DOMAIN out : Height(out[k]) = h
CaseOf(gr, input) == [g |-> gr, start |-> gr[1][1], input |-> input, entry |-> "default", limit |-> MaxOut]
DumpSpec == (steps = 0 /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({CaseOf(p[1], p[2]) : p \in {q \in Universe \X Inputs : Infinite(Table(q[1]), q[2], "s")}}))
             /\ g = <<>> /\ w = "" /\ agenda = <<>> /\ seen = {} /\ incomplete = {} /\ complete = {} /\ out = <<>>) /\ [][FALSE]_vars
=============================================================================
