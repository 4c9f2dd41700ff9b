------------------------------- MODULE MCEdit -------------------------------
(* all short histories of edits *)
EXTENDS Edit, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANT MaxOps
VARIABLES g, prev, last, ret, n
vars == <<g, prev, last, ret, n>>
t(x) == <<"T", x>>
nt(x) == <<"N", x>>
Alts0 == {<<t("x")>>, <<nt("b")>>}
Prods == {<<nt("a"), <<<<t("x")>>>>>>, <<nt("b"), <<<<t("x")>>, <<nt("b")>>>>>>}
Ops == {<<"addp", 0, 0, 0, p, 0>> : p \in Prods} \cup {<<"rmp", 0, 0, 0, p, 0>> : p \in Prods}
  \cup {<<o, i, 0, 0, a, 0>> : o \in {"adda", "rma"}, i \in {1, 3}, a \in Alts0}
  \cup {<<o, 1, j, 0, t("x"), 0>> : o \in {"addt", "rmt"}, j \in {1, 2}}
  \cup {<<"lhs", 2, 0, 0, nt("a"), 0>>, <<"sett", 1, 1, 1, nt("b"), 0>>, <<"subst", 0, 0, 0, nt("b"), nt("a")>>}
Starts == {<<>>, <<<<nt("a"), <<<<t("x")>>>>>>, <<nt("b"), <<<<t("x")>>, <<nt("b")>>>>>>, <<nt("a"), <<<<t("x")>>>>>>, <<nt("c"), <<>>>>>>}
Init == g \in Starts /\ prev = <<>> /\ last = <<"">> /\ ret = <<>> /\ n = 0
Step == /\ n < MaxOps
        /\ \E op \in Ops : LET r == Apply(g, op) IN g' = r[1] /\ ret' = r[2] /\ last' = op
        /\ prev' = g /\ n' = n + 1
Spec == Init /\ [][Step]_vars
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
IsSub(s, u) == \E I \in SUBSET (DOMAIN u) : Cardinality(I) = Len(s) /\
   LET sorted == SE!SetToSortSeq(I, <) IN \A i \in DOMAIN s : s[i] = u[sorted[i]]
\* removing takes one equal element away and keeps the order of the rest
RemoveRight == last[1] = "rmp" =>
   IF Count(prev, last[5]) = 0 THEN g = prev /\ ret = <<>>
   ELSE /\ ret = <<last[5]>> /\ Len(g) = Len(prev) - 1 /\ Count(g, last[5]) = Count(prev, last[5]) - 1 /\ IsSub(g, prev)
        /\ LET f == FirstAt(prev, last[5]) IN \A i \in 1..(f - 1) : g[i] = prev[i]
AddRight == last[1] = "addp" => g = Append(prev, last[5])
\* only the addressed production changes
Local == last[1] \in {"adda", "rma", "addt", "rmt", "lhs", "sett"} =>
   Len(g) = Len(prev) /\ \A i \in DOMAIN g : i # last[2] => g[i] = prev[i]
Hists == [1..MaxOps -> Ops]
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({[g |-> s, ops |-> h] : s \in Starts, h \in Hists}))
            /\ g = <<>> /\ prev = <<>> /\ last = <<"">> /\ ret = <<>> /\ n = 0
DumpSpec == DumpInit /\ [][FALSE]_vars
=============================================================================
