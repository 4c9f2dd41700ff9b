------------------------------ MODULE MCSession ------------------------------
(* Every session of at most MaxOps operations with two slots and two inputs on *)
(* an ambiguous grammar, explored on the model and dumped for replay.          *)
EXTENDS Session, Gram, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANTS MaxOps

\* <e> ::= <e> "+" <e> | "x" | "y" : one derivation of x, two of x+x+x
G == << << <<"N", "e">>, << << <<"N", "e">>, <<"T", "+">>, <<"N", "e">> >>, << <<"T", "x">> >>, << <<"T", "y">> >> >> >> >>
Inputs == <<"x+x+x", "y+x">>
SeqOf(S) == SE!SetToSeq(S)
\* a parse is identified by its input; its results are numbered trees
AllTrees(w) == TreesUpTo(Table(G), w, 4, "e", 0, Len(w))
Alone(key) == [seq |-> [k \in 1..Cardinality(AllTrees(Inputs[key])) |-> 10 * key + k], ended |-> TRUE]
ASSUME Len(Alone(1).seq) = 2 /\ Len(Alone(2).seq) = 1

VARIABLES slots, given, n
vars == <<slots, given, n>>
S == {0, 1}
Init == slots = <<>> /\ given = [s \in S |-> <<>>] /\ n = 0
Open(s, k) == slots' = DoOpen(slots, s, k) /\ given' = [given EXCEPT ![s] = <<>>]
Drop(s) == s \in DOMAIN slots /\ slots' = DoDrop(slots, s) /\ given' = [given EXCEPT ![s] = <<>>]
Nxt(s) == /\ s \in DOMAIN slots
          /\ \E r \in NextResult(slots, s, Alone) : given' = [given EXCEPT ![s] = Append(@, r)]
          /\ slots' = DoNext(slots, s, Alone)
Next == n < MaxOps /\ n' = n + 1 /\ \E s \in S : Drop(s) \/ Nxt(s) \/ \E k \in {1, 2} : Open(s, k)
Spec == Init /\ [][Next]_vars
\* each slot gives what its parse gives alone, then nothing, whatever the others do
Independent ==
  \A s \in DOMAIN slots :
    LET a == Alone(slots[s][1]).seq  m == given[s] IN
    /\ \A k \in DOMAIN m : m[k] = (IF k <= Len(a) THEN a[k] ELSE 0)
    /\ slots[s][2] = (IF Len(m) < Len(a) THEN Len(m) ELSE Len(a))

(* ------------------------- all histories, for replay --------------------- *)
Entry(j, s) == <<"default", "deprecated", "explicit", "deprecated_start">>[1 + ((j + 2 * s) % 4)]
\* open: slot, parser, input, entry, start
Ops(open, j) == {<<"open", s, (j + k) % 2, k - 1, Entry(j, s + k), 0>> : s \in S, k \in {1, 2}}
                \cup {<<"drop", s>> : s \in open} \cup {<<"next", s>> : s \in open}
After(open, op) == CASE op[1] = "open" -> open \cup {op[2]} [] op[1] = "drop" -> open \ {op[2]} [] OTHER -> open
RECURSIVE Hist(_, _, _)
Hist(open, j, m) == IF m = 0 THEN {<<>>}
                    ELSE UNION {{<<op>> \o h : h \in Hist(After(open, op), j + 1, m - 1)} : op \in Ops(open, j)}
CaseOf(h) == [g |-> G, starts |-> <<<<"N", "e">>>>, inputs |-> Inputs, ops |-> h, variants |-> <<>>, cyclic |-> FALSE, limit |-> 10]
DumpInit == ndJsonSerialize(IOEnv.OUT, SeqOf({CaseOf(h) : h \in Hist({}, 0, MaxOps)})) /\ Init
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
