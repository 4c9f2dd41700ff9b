-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* Grammars, productions and expressions as ordered lists under editing.      *)
(* An operation on grammar g (a sequence of <<lhs, alternatives>>) gives the  *)
(* new grammar and what the call returned: <<>> (nothing) or <<element>>.     *)
(***************************************************************************)
EXTENDS Gram
FirstAt(s, x) == LET I == {i \in DOMAIN s : s[i] = x} IN
                 IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RemoveFirst(s, x) == LET i == FirstAt(s, x) IN IF i = 0 THEN s ELSE DropAt(s, i)
Removed(s, x) == IF FirstAt(s, x) = 0 THEN <<>> ELSE <<x>>
HasAlt(g, i, j) == i \in DOMAIN g /\ j \in DOMAIN g[i][2]
Subst(x, from, to) == IF x = from THEN to ELSE x
\* op is <<name, i, j, k, value, value2>> (unused places are 0)
Apply(g, op) ==
  LET i == op[2]  j == op[3]  k == op[4]  v == op[5] IN
  CASE op[1] = "addp" -> <<Append(g, v), <<>>>>
    [] op[1] = "rmp"  -> <<RemoveFirst(g, v), Removed(g, v)>>
    [] op[1] = "adda" -> <<IF i \in DOMAIN g THEN [g EXCEPT ![i][2] = Append(@, v)] ELSE g, <<>>>>
    [] op[1] = "rma"  -> IF i \in DOMAIN g THEN <<[g EXCEPT ![i][2] = RemoveFirst(@, v)], Removed(g[i][2], v)>> ELSE <<g, <<>>>>
    [] op[1] = "addt" -> <<IF HasAlt(g, i, j) THEN [g EXCEPT ![i][2][j] = Append(@, v)] ELSE g, <<>>>>
    [] op[1] = "rmt"  -> IF HasAlt(g, i, j) THEN <<[g EXCEPT ![i][2][j] = RemoveFirst(@, v)], Removed(g[i][2][j], v)>> ELSE <<g, <<>>>>
    [] op[1] = "lhs"  -> <<IF i \in DOMAIN g THEN [g EXCEPT ![i][1] = v] ELSE g, <<>>>>
    [] op[1] = "sett" -> <<IF HasAlt(g, i, j) /\ k \in DOMAIN g[i][2][j] THEN [g EXCEPT ![i][2][j][k] = v] ELSE g, <<>>>>
    [] op[1] = "setp" -> <<IF i \in DOMAIN g THEN [g EXCEPT ![i] = v] ELSE g, <<>>>>
    [] op[1] = "seta" -> <<IF HasAlt(g, i, j) THEN [g EXCEPT ![i][2][j] = v] ELSE g, <<>>>>
    \* one pass of mutable iteration over everything
    [] op[1] = "subst" -> <<[a \in DOMAIN g |-> <<Subst(g[a][1], v, op[6]),
                              [b \in DOMAIN g[a][2] |-> [m \in DOMAIN g[a][2][b] |-> Subst(g[a][2][b][m], v, op[6])]]>>], <<>>>>
    [] op[1] = "clear" -> <<<<>>, <<>>>>
    [] OTHER -> <<g, <<>>>>
=============================================================================
