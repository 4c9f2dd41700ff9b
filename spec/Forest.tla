------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* The forest of all derivations of an input, as spans: heights and           *)
(* infinite ambiguity.  Works for cyclic grammars too.                        *)
(***************************************************************************)
EXTENDS Gram

(* ------------- heights and infinite ambiguity ------------------------- *)
\* SpanRow(h): for each name the spans it derives with a tree of height <= h
RECURSIVE SeqSpans(_, _, _, _, _)
SeqSpans(w, alt, k, P, R) ==
  IF k > Len(alt) \/ P = {} THEN P
  ELSE LET x == alt[k] IN
       SeqSpans(w, alt, k + 1,
         IF IsT(x) THEN {p + Len(x[2]) : p \in {q \in P : At(w, q, x[2])}}
         ELSE IF x[2] \notin DOMAIN R THEN {}
         ELSE {s[2] : s \in {u \in R[x[2]] : u[1] \in P}}, R)
NextSpans(tab, w, R) ==
  TLCEval([A \in DOMAIN tab |->
    UNION {{<<i, j>> : j \in UNION {SeqSpans(w, tab[A][a], 1, {i}, R) : a \in DOMAIN tab[A]}}
           : i \in 0..Len(w)}])
RECURSIVE MinHeightFrom(_, _, _, _, _)
MinHeightFrom(tab, w, A, R, h) ==
  IF <<0, Len(w)>> \in R[A] THEN h
  ELSE LET R2 == NextSpans(tab, w, R) IN
       IF R2 = R THEN -1 ELSE MinHeightFrom(tab, w, A, R2, h + 1)
\* the smallest height of a derivation tree, or -1 if there is none
MinHeight(tab, w, A) == MinHeightFrom(tab, w, A, [B \in DOMAIN tab |-> {}], 0)

RECURSIVE AllSpans(_, _, _)
AllSpans(tab, w, R) == LET R2 == NextSpans(tab, w, R) IN IF R2 = R THEN R ELSE AllSpans(tab, w, R2)
\* <<A,i,j>> --> <<B,p,q>> if some derivation of A over [i,j) has a child B over [p,q)
Kids(tab, w, R, n) ==
  LET A == n[1]  i == n[2]  j == n[3] IN
  UNION {LET alt == tab[A][a] IN
         UNION {IF IsN(alt[m]) /\ alt[m][2] \in DOMAIN R
                THEN LET Pre == SeqSpans(w, SubSeq(alt, 1, m - 1), 1, {i}, R) IN
                     {<<alt[m][2], s[1], s[2]>> : s \in {u \in R[alt[m][2]] :
                         /\ u[1] \in Pre /\ u[2] <= j
                         /\ j \in SeqSpans(w, SubSeq(alt, m + 1, Len(alt)), 1, {u[2]}, R)}}
                ELSE {} : m \in DOMAIN alt}
         : a \in DOMAIN tab[A]}
RECURSIVE Below(_, _, _, _, _)
Below(tab, w, R, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nw == UNION {Kids(tab, w, R, x) : x \in todo} \ seen
       IN Below(tab, w, R, nw, seen \cup nw)
\* infinitely many derivations: a node of the forest below the root is below itself
Infinite(tab, w, A) ==
  LET R == AllSpans(tab, w, [B \in DOMAIN tab |-> {}])
      root == <<A, 0, Len(w)>>
  IN /\ <<0, Len(w)>> \in R[A]
     /\ \E n \in Below(tab, w, R, {root}, {root}) :
           n \in Below(tab, w, R, Kids(tab, w, R, n), Kids(tab, w, R, n))

(* --------------------- how soon a fair iterator must answer --------------- *)
\* C[A] maps a span that A derives with height <= h to the least number of nodes
\* (names and terminals) of such a tree.  SeqCost: cost of reaching each end.
MinOver(S, f) == LET vs == {f[x] : x \in S} IN CHOOSE v \in vs : \A u \in vs : v <= u
RECURSIVE SeqCost(_, _, _, _, _)
SeqCost(w, alt, k, P, C) ==
  IF k > Len(alt) \/ DOMAIN P = {} THEN P
  ELSE LET x == alt[k] IN
       IF IsT(x)
       THEN LET ok == {p \in DOMAIN P : At(w, p, x[2])} IN
            SeqCost(w, alt, k + 1, [q \in {p + Len(x[2]) : p \in ok} |-> P[q - Len(x[2])] + 1], C)
       ELSE IF x[2] \notin DOMAIN C THEN EmptyVec
       ELSE LET R == C[x[2]]
                E == {s[2] : s \in {u \in DOMAIN R : u[1] \in DOMAIN P}}
            IN SeqCost(w, alt, k + 1,
                 TLCEval([q \in E |-> LET src == {p \in DOMAIN P : <<p, q>> \in DOMAIN R}
                                       IN MinOver(src, [p \in src |-> P[p] + R[<<p, q>>]])]), C)
NextCost(tab, w, C) ==
  TLCEval([A \in DOMAIN tab |->
    LET by == TLCEval([i \in 0..Len(w) |-> [a \in DOMAIN tab[A] |-> SeqCost(w, tab[A][a], 1, (i :> 1), C)]])
        sp == UNION {UNION {{<<i, j>> : j \in DOMAIN by[i][a]} : a \in DOMAIN tab[A]} : i \in 0..Len(w)}
    IN TLCEval([s \in sp |-> LET src == {a \in DOMAIN tab[A] : s[2] \in DOMAIN by[s[1]][a]}
                              IN MinOver(src, [a \in src |-> by[s[1]][a][s[2]]])])])
RECURSIVE CostAt(_, _, _, _)
CostAt(tab, w, C, h) == IF h = 0 THEN C ELSE CostAt(tab, w, NextCost(tab, w, C), h - 1)
\* least number of nodes among the derivation trees of smallest height h
MinNodes(tab, w, A, h) == CostAt(tab, w, [B \in DOMAIN tab |-> EmptyVec], h)[A][<<0, Len(w)>>]
\* A breadth-first search needs at most two steps per node for that tree, and at least
\* one step per level for any tree: once a tree this high is out, a smallest one is too.
FairHeight(tab, w, A, h) == 2 * MinNodes(tab, w, A, h) + 2

=============================================================================
