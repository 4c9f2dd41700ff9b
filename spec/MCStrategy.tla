----------------------------- MODULE MCStrategy -----------------------------
(* The strategies driven by every sequence of questions over three small       *)
(* productions; and the weighted walk for every small weight vector.           *)
EXTENDS Strategy, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANTS MaxAsks, Kind
VARIABLES max, seen, asks, last, hist
vars == <<max, seen, asks, last, hist>>
t(x) == <<"T", x>>
n(x) == <<"N", x>>
Prods == <<<<n("s"), <<<<n("s"), t("x")>>, <<t("y")>>, <<t("s"), t("z")>>>>>>,
           <<n("s"), <<<<n("s"), t("x")>>, <<t("y")>>, <<t("s"), t("z")>>>>>>,
           <<n("a"), <<<<n("s")>>, <<n("a"), n("a")>>>>>>>>
Init == /\ max \in (IF Kind = "depth" THEN 0..2 ELSE {0})
        /\ seen = <<>> /\ asks = 0 /\ last = <<0, 0, 0>> /\ hist = <<>>
Allowed(p, d) == IF Kind = "depth" THEN DepthAllowed(Prods[p][2], max, d) ELSE CoverAllowed(Prods[p][2], seen, p)
Ask == /\ asks < MaxAsks
       /\ \E p \in DOMAIN Prods : \E d \in (IF Kind = "depth" THEN 0..3 ELSE {0}) : \E a \in Allowed(p, d) :
            /\ last' = <<p, d, a>>
            /\ seen' = CoverNote(seen, p, a)
            /\ hist' = IF Kind = "cover" THEN Append(hist, <<p, a>>) ELSE hist
       /\ asks' = asks + 1 /\ UNCHANGED max
Spec == Init /\ [][Ask]_vars
\* every production always has something to choose
Answers == \A p \in DOMAIN Prods : \A d \in 0..3 : Allowed(p, d) # {}
Bounded == (Kind = "depth" /\ asks > 0 /\ last[2] >= max /\ TermAlts(Prods[last[1]][2]) # {})
              => AllTerminals(Prods[last[1]][2][last[3]])
Below == Kind = "depth" => \A p \in DOMAIN Prods : \A d \in 0..3 : d < max => Allowed(p, d) = DOMAIN Prods[p][2]
\* declaratively: among the first |rhs| choices of a production there is no repetition
RECURSIVE PickOf(_, _)
PickOf(h, p) == IF h = <<>> THEN <<>>
                ELSE (IF Head(h)[1] = p THEN <<Head(h)[2]>> ELSE <<>>) \o PickOf(Tail(h), p)
NoEarlyRepeat == Kind = "cover" => \A p \in DOMAIN Prods :
   LET h == PickOf(hist, p)  m == Min2(Len(h), Len(Prods[p][2])) IN
   Cardinality({h[i] : i \in 1..m}) = m
\* the walk: r in 0..Total-1 lands on a, for exactly ws[a] values of r
WeightVecs == UNION {[1..k -> 0..3] : k \in 1..4}
WalkRight == \A ws \in WeightVecs : Total(ws) = 0 \/
   \A a \in DOMAIN ws : Cardinality({r \in 0..(Total(ws) - 1) : Walk(ws, r, 1) = a}) = ws[a]
ASSUME Kind # "weight" \/ WalkRight
(* ------------------------------ replay cases ----------------------------- *)
Calls == UNION {[1..k -> {<<p, d>> : p \in DOMAIN Prods, d \in (IF Kind = "depth" THEN {0, 2} ELSE {0})}] : k \in 1..MaxAsks}
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq(
                  {[g |-> Prods, mode |-> "direct", calls |-> cs,
                    strat |-> [kind |-> Kind, max |-> m, seed |-> s]] : cs \in Calls,
                    m \in (IF Kind = "depth" THEN 0..3 ELSE {0}), s \in 1..2}))
            /\ max = 0 /\ seen = <<>> /\ asks = 0 /\ last = <<0, 0, 0>> /\ hist = <<>>
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
