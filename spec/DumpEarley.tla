----------------------------- MODULE DumpEarley -----------------------------
(* Writes every (grammar, input) pair of the small universe as a case that    *)
(* the harness replays into the code.                                         *)
EXTENDS MCEarley
SE == INSTANCE SequencesExt
Entry(gr, input) == <<"default", "explicit", "deprecated", "deprecated_start">>[1 + ((Len(gr[1][2]) + Len(input) + Len(gr[2][2][1])) % 4)]
CaseOf(gr, input) == [g |-> gr, start |-> gr[1][1], input |-> input, entry |-> Entry(gr, input), limit |-> 305]
ASSUME ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({CaseOf(gr, input) : gr \in Universe, input \in Inputs}))
DInit == InitFor(<<>>, "") /\ FALSE
DumpSpec == DInit /\ [][FALSE]_vars
=============================================================================
