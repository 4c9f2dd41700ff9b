---------------------------- MODULE TraceSession ----------------------------
(* Recorded sessions are behaviours of Session; and grammars with the same     *)
(* rules in another order or grouping yield the same trees.                    *)
EXTENDS Session, Gram, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, slots, st
vars == <<c, l, slots, st>>
Case == Trace[c]
Op == Case.ops[l]
Res == Case.res[l]
Key(op) == <<op[6] + 1, op[4] + 1>>     \* start symbol and input, whatever the entry point
AloneOf(key) == Case.alone[key[1]][key[2]]

Init == c \in 1..Len(Trace) /\ l = 1 /\ slots = <<>> /\ st = "run"
Ready == st = "run" /\ Case.outcome = "ok" /\ l <= Len(Case.ops)
Open == Ready /\ Op[1] = "open" /\ slots' = DoOpen(slots, Op[2], Key(Op)) /\ l' = l + 1 /\ UNCHANGED <<c, st>>
Drop == Ready /\ Op[1] = "drop" /\ slots' = DoDrop(slots, Op[2]) /\ l' = l + 1 /\ UNCHANGED <<c, st>>
\* anything else done with the grammar or another parser is invisible
Use == Ready /\ Op[1] = "use" /\ UNCHANGED <<c, slots, st>> /\ l' = l + 1
NextOk == Ready /\ Op[1] = "next" /\ Res \in NextResult(slots, Op[2], AloneOf)
Advance == NextOk = TRUE /\ slots' = DoNext(slots, Op[2], AloneOf) /\ l' = l + 1 /\ UNCHANGED <<c, st>>

\* the same rules: same alternatives for each left hand side, with multiplicity
RECURSIVE Count(_, _)
Count(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + Count(Tail(s), x)
RECURSIVE Flat(_)
Flat(gr) == IF gr = <<>> THEN <<>>
            ELSE [a \in DOMAIN Head(gr)[2] |-> <<Head(gr)[1], Head(gr)[2][a]>>] \o Flat(Tail(gr))
Elems(s) == {s[i] : i \in DOMAIN s}
BagEq(s, t) == Len(s) = Len(t) /\ \A x \in Elems(s) : Count(s, x) = Count(t, x)
SameRules(g1, g2) == BagEq(Flat(g1), Flat(g2))
VariantsOk == \A v \in DOMAIN Case.vres :
                /\ SameRules(Case.g, Case.variants[v])
                /\ \A a \in DOMAIN Case.vres[v] : \A b \in DOMAIN Case.vres[v][a] :
                     LET x == Case.alone[a][b]  y == Case.vres[v][a][b] IN
                     x.ended = y.ended /\ (x.ended => BagEq(x.seq, y.seq))
\* what a parse yields alone is what the grammar says, not what this process remembers
AloneOk == Case.cyclic \/
  \A a \in DOMAIN Case.alone : \A b \in DOMAIN Case.alone[a] :
    LET x == Case.alone[a][b]  tab == Table(Case.g)  s == Case.starts[a][2] IN
    /\ \A k \in DOMAIN x.seq : IsDerivation(tab, s, Case.inputs[b], Nested(Case.trees[x.seq[k]]))
    /\ x.ended => Len(x.seq) = NumTrees(tab, s, Case.inputs[b])
AtEnd == st = "run" /\ Case.outcome = "ok" /\ l > Len(Case.ops)
Accept == AtEnd /\ (VariantsOk /\ AloneOk) = TRUE /\ st' = "ok" /\ UNCHANGED <<c, l, slots>>
Why == CASE Case.outcome # "ok" -> Case.outcome
         [] l <= Len(Case.ops) -> "an iterator returned something else than alone"
         [] ~AloneOk -> "a parser of its own returned wrong trees"
         [] OTHER -> "reordering or splitting productions changed the trees"
Reject == /\ st = "run"
          /\ \/ Case.outcome # "ok"
             \/ Ready /\ Op[1] = "next" /\ NextOk = FALSE
             \/ AtEnd /\ (VariantsOk /\ AloneOk) = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ st' = "bad" /\ UNCHANGED <<c, l, slots>>
Next == Open \/ Drop \/ Use \/ Advance \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
