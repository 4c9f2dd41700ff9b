------------------------------ MODULE TraceDist ------------------------------
(***************************************************************************)
(* Tallies of many choices against the distribution the specification gives.  *)
(* A case: production prod = <<lhs, rhs>>, strategy kind "walk" or "weight"    *)
(* with weights wr and wn (<<"n", number>>, <<"half", 0>> for 2^31, or           *)
(* <<"max", 0>> for 2^32-1), total n, tally[a] = how often alternative a was chosen, and        *)
(* pair[a][b] = how often b was chosen right after a, over m disjoint pairs.   *)
(* A tally may be off by six standard deviations.                             *)
(***************************************************************************)
EXTENDS Strategy, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, fin
vars == <<c, fin>>
Case == Trace[c]
Lhs == Case.prod[1]
Rhs == Case.prod[2]
Huge(w) == w[1] # "n"
\* weights as comparable numbers: next to a huge weight a small one is negligible
Eff(ws) == IF \E a \in DOMAIN ws : Huge(ws[a])
           THEN [a \in DOMAIN ws |-> CASE ws[a][1] = "half" -> 1 [] ws[a][1] = "max" -> 2 [] OTHER -> 0]
           ELSE [a \in DOMAIN ws |-> ws[a][2]]
Zero(w) == w = <<"n", 0>>
Ws == IF Case.kind = "walk" THEN [a \in DOMAIN Rhs |-> <<"n", 1>>]
      ELSE LET ws == Weights(Lhs, Rhs, Case.wr, Case.wn) IN
           IF \A a \in DOMAIN ws : Zero(ws[a]) THEN [a \in DOMAIN Rhs |-> <<"n", 1>>] ELSE ws
Abs(x) == IF x < 0 THEN -x ELSE x
\* x out of n with probability num/den
Near(x, n, num, den) ==
  LET e == (n * num) \div den
      var == (((n * num) \div den) * (den - num)) \div den
      d == Abs(x - e)
  IN d <= 8 \/ d * d <= 36 * var + 200
\* the same alternative twice in a row, in so many of twos disjoint pairs; uniform choices only
AgainOk == (\A a \in DOMAIN Ws : Ws[a] = Ws[1]) => (Case.twos > 0 => Near(Case.again, Case.twos, 1, Len(Rhs)))
TallyOk ==
  LET ws == Ws  ef == Eff(ws)  S == Total([a \in DOMAIN ef |-> ef[a]]) IN
  /\ Len(Case.tally) = Len(Rhs)
  /\ Total(Case.tally) = Case.n
  /\ \A a \in DOMAIN ws : Zero(ws[a]) => Case.tally[a] = 0
  /\ \A a \in DOMAIN ws : Near(Case.tally[a], Case.n, ef[a], S)
  /\ Case.m > 0 => \A a \in DOMAIN ws : \A b \in DOMAIN ws : Near(Case.pair[a][b], Case.m, ef[a] * ef[b], S * S)
Init == c \in 1..Len(Trace) /\ fin = "run"
Good == Case.outcome = "ok" /\ TallyOk /\ AgainOk
Accept == fin = "run" /\ Good = TRUE /\ fin' = "ok" /\ UNCHANGED c
Reject == /\ fin = "run" /\ Good = FALSE
          /\ PrintT(<<"BAD", c, IF Case.outcome # "ok" THEN Case.outcome ELSE "choices do not follow the advertised distribution">>)
          /\ fin' = "bad" /\ UNCHANGED c
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
