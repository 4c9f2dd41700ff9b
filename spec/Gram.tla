-------------------------------- MODULE Gram --------------------------------
(***************************************************************************)
(* Denotational semantics of context-free grammars, as the bnf crate's     *)
(* users understand them.  Everything else in this specification is judged  *)
(* against the operators of this module.                                    *)
(*                                                                          *)
(*   text         a TLA+ string (UTF-16 units of TLC; only equality,        *)
(*                concatenation and sub-strings are used)                   *)
(*   term         <<"T", text>>  or  <<"N", name>>                          *)
(*   alternative  a sequence of terms                                       *)
(*   production   <<lhs term, sequence of alternatives>>                    *)
(*   grammar      a sequence of productions; the first one is the start     *)
(*   tree         <<"N", name, children>>; a leaf is <<"T", text>>          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
IsT(x) == x[1] = "T"
IsN(x) == x[1] = "N"

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

RECURSIVE Concat(_)
\* concatenation of a sequence of texts
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN ""
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE Head(ss) \o sep \o Join(Tail(ss), sep)

RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0
                ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(S \ {x}, f)

(* ------------------------------ structure ------------------------------ *)
\* names that have a production
Defined(G) == {G[i][1][2] : i \in {k \in DOMAIN G : IsN(G[k][1])}}
\* names used on a right hand side
Used(G) == UNION {UNION {{alt[k][2] : k \in {m \in DOMAIN alt : IsN(alt[m])}}
                          : alt \in Range(G[i][2])} : i \in DOMAIN G}
Undefined(G) == Used(G) \ Defined(G)
Start(G) == G[1][1]

\* all alternatives of nonterminal A, over all its productions, in order
RECURSIVE AltsFrom(_, _, _)
AltsFrom(G, A, i) == IF i > Len(G) THEN <<>>
                     ELSE (IF G[i][1] = <<"N", A>> THEN G[i][2] ELSE <<>>) \o AltsFrom(G, A, i + 1)
Alts(G, A) == AltsFrom(G, A, 1)
\* the grammar as a table from defined names to alternatives
Table(G) == TLCEval([A \in Defined(G) |-> Alts(G, A)])
DistinctAlts(tab) == \A A \in DOMAIN tab : Cardinality(Range(tab[A])) = Len(tab[A])

\* every name of G that is used but not defined, turned into the text <name>
UndefAsText(G) ==
  LET D == Defined(G) IN
  [i \in DOMAIN G |-> <<G[i][1], [a \in DOMAIN G[i][2] |->
     [k \in DOMAIN G[i][2][a] |->
        LET x == G[i][2][a][k] IN
        IF IsN(x) /\ x[2] \notin D THEN <<"T", "<" \o x[2] \o ">">> ELSE x]]>>]

(* --------------------- productive, nullable, cyclic --------------------- *)
\* least set of names with an alternative all of whose names are in the set
RECURSIVE ProdFix(_, _)
ProdFix(tab, S) ==
  LET S2 == {A \in DOMAIN tab : \E alt \in Range(tab[A]) :
                 \A k \in DOMAIN alt : IsT(alt[k]) \/ alt[k][2] \in S}
  IN IF S2 = S THEN S ELSE ProdFix(tab, S2)
Productive(tab) == ProdFix(tab, {})

RECURSIVE NullFix(_, _)
NullFix(tab, S) ==
  LET S2 == {A \in DOMAIN tab : \E alt \in Range(tab[A]) :
                 \A k \in DOMAIN alt : IF IsT(alt[k]) THEN alt[k][2] = "" ELSE alt[k][2] \in S}
  IN IF S2 = S THEN S ELSE NullFix(tab, S2)
Nullable(tab) == NullFix(tab, {})

\* A =>+ A without consuming input
UnitEdges(tab) ==
  LET Nu == Nullable(tab) IN
  {<<A, B>> \in (DOMAIN tab) \X (DOMAIN tab) :
     \E alt \in Range(tab[A]) : \E k \in DOMAIN alt :
        /\ alt[k] = <<"N", B>>
        /\ \A m \in DOMAIN alt \ {k} :
             IF IsT(alt[m]) THEN alt[m][2] = "" ELSE alt[m][2] \in Nu}
RECURSIVE Closure(_)
Closure(R) == LET R2 == R \cup {<<p[1], q[2]>> : p \in R, q \in R}
                  R3 == {e \in R2 : \/ e \in R
                                    \/ \E p \in R : p[1] = e[1] /\ <<p[2], e[2]>> \in R}
              IN IF R3 = R THEN R ELSE Closure(R3)
Cyclic(tab) == \E e \in Closure(UnitEdges(tab)) : e[1] = e[2]

(* ------------------------------- matching ------------------------------- *)
\* text t occurs in w at offset p (0-based)
At(w, p, t) == p + Len(t) <= Len(w) /\ SubSeq(w, p + 1, p + Len(t)) = t

(* ----------------------- genuine derivation trees ----------------------- *)
RECURSIVE Yield(_)
Yield(t) == IF IsT(t) THEN t[2] ELSE Concat([k \in DOMAIN t[3] |-> Yield(t[3][k])])

RECURSIVE WellFormed(_, _)
\* t expands its name by one of the alternatives, and so do its children
WellFormed(tab, t) ==
  IF IsT(t) THEN TRUE
  ELSE /\ t[2] \in DOMAIN tab
       /\ \E alt \in Range(tab[t[2]]) :
            /\ Len(alt) = Len(t[3])
            /\ \A k \in DOMAIN alt : alt[k][1] = t[3][k][1] /\ alt[k][2] = t[3][k][2]
       /\ \A k \in DOMAIN t[3] : WellFormed(tab, t[3][k])

IsDerivation(tab, start, w, t) ==
  /\ IsN(t) /\ t[2] = start
  /\ WellFormed(tab, t)
  /\ Yield(t) = w

\* Recorded trees that are too deep to be written nested come as <<"F", nodes>>: their nodes in
\* depth-first order, a name with the number of its children.  Nested(x) is the tree itself.
RECURSIVE UnflatKids(_, _, _, _)
RECURSIVE UnflatAt(_, _)
UnflatKids(s, i, k, acc) == IF k = 0 THEN <<acc, i>>
                            ELSE LET r == UnflatAt(s, i) IN UnflatKids(s, r[2], k - 1, Append(acc, r[1]))
UnflatAt(s, i) == IF IsT(s[i]) THEN <<s[i], i + 1>>
                  ELSE LET r == UnflatKids(s, i + 1, s[i][3], <<>>) IN <<<<s[i][1], s[i][2], r[1]>>, r[2]>>
Nested(x) == IF x[1] = "F" THEN TLCEval(UnflatAt(x[2], 1)[1]) ELSE x

RECURSIVE Height(_)
Height(t) == IF IsT(t) THEN 0
             ELSE 1 + (IF t[3] = <<>> THEN 0
                       ELSE LET hs == {Height(t[3][k]) : k \in DOMAIN t[3]}
                            IN CHOOSE h \in hs : \A g \in hs : g <= h)

(* ---------------- trees of bounded height, as explicit sets -------------- *)
\* Small universes only: all derivation trees of height <= h of A over w[i..j)
RECURSIVE TreesUpTo(_, _, _, _, _, _)
RECURSIVE ForestUpTo(_, _, _, _, _, _, _)
\* sequences of children matching alt[k..] over w[i..j)
ForestUpTo(tab, w, h, alt, k, i, j) ==
  IF k > Len(alt) THEN IF i = j THEN {<<>>} ELSE {}
  ELSE LET x == alt[k] IN
       IF IsT(x)
       THEN IF At(w, i, x[2]) /\ i + Len(x[2]) <= j
            THEN {<<x>> \o f : f \in ForestUpTo(tab, w, h, alt, k + 1, i + Len(x[2]), j)}
            ELSE {}
       ELSE UNION {LET ts == TreesUpTo(tab, w, h - 1, x[2], i, m) IN
                   IF ts = {} THEN {}
                   ELSE {<<t>> \o f : t \in ts, f \in ForestUpTo(tab, w, h, alt, k + 1, m, j)}
                   : m \in i..j}
TreesUpTo(tab, w, h, A, i, j) ==
  IF h <= 0 \/ A \notin DOMAIN tab THEN {}
  ELSE UNION {{<<"N", A, f>> : f \in ForestUpTo(tab, w, h, alt, 1, i, j)}
              : alt \in Range(tab[A])}

(* ------------------------- charts: ends and counts ----------------------- *)
(* EndsChart(tab,w)[i][A]   = the set of j such that A derives w[i..j)        *)
(* CountChart(tab,w)[i][A]  = function from those j to the number of trees    *)
(*                            (only for non-cyclic grammars; capped)         *)
CAP == 20000
Cap(n) == Min2(n, CAP)

RECURSIVE EndsSeq(_, _, _, _, _, _, _)
EndsSeq(w, alt, k, P, i, cur, later) ==
  IF k > Len(alt) \/ P = {} THEN P
  ELSE LET x == alt[k]
           Q == IF IsT(x) THEN {p + Len(x[2]) : p \in {q \in P : At(w, q, x[2])}}
                ELSE IF x[2] \notin DOMAIN cur THEN {}
                ELSE UNION {IF p = i THEN cur[x[2]] ELSE later[p][x[2]] : p \in P}
       IN EndsSeq(w, alt, k + 1, Q, i, cur, later)

RECURSIVE EndsRow(_, _, _, _, _)
EndsRow(tab, w, i, cur, later) ==
  LET nxt == TLCEval([A \in DOMAIN tab |->
               UNION {EndsSeq(w, tab[A][a], 1, {i}, i, cur, later) : a \in DOMAIN tab[A]}])
  IN IF nxt = cur THEN cur ELSE EndsRow(tab, w, i, nxt, later)

RECURSIVE EndsFrom(_, _, _, _)
EndsFrom(tab, w, i, later) ==
  IF i < 0 THEN later
  ELSE EndsFrom(tab, w, i - 1,
         TLCEval(later @@ (i :> EndsRow(tab, w, i, [A \in DOMAIN tab |-> {}], later))))
EndsChart(tab, w) == EndsFrom(tab, w, Len(w), <<>>)

Derives(tab, A, w) == A \in DOMAIN tab /\ Len(w) \in EndsChart(tab, w)[0][A]

EmptyVec == [x \in {} |-> 0]
\* sum over p in DOMAIN v of v[p] * row(p)[A]
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN Cap(f[x] + SumOver(S \ {x}, f))

RECURSIVE CountSeq(_, _, _, _, _, _, _)
CountSeq(w, alt, k, v, i, cur, later) ==
  IF k > Len(alt) \/ DOMAIN v = {} THEN v
  ELSE LET x == alt[k] IN
       IF IsT(x)
       THEN LET ok == {p \in DOMAIN v : At(w, p, x[2])} IN
            CountSeq(w, alt, k + 1,
               [q \in {p + Len(x[2]) : p \in ok} |-> v[q - Len(x[2])]], i, cur, later)
       ELSE IF x[2] \notin DOMAIN cur THEN EmptyVec
       ELSE LET r == TLCEval([p \in DOMAIN v |-> IF p = i THEN cur[x[2]] ELSE later[p][x[2]]])
                E == UNION {DOMAIN r[p] : p \in DOMAIN v}
                u == TLCEval([q \in E |->
                       LET src == {p \in DOMAIN v : q \in DOMAIN r[p]}
                       IN SumOver(src, [p \in src |-> Cap(v[p] * r[p][q])])])
            IN CountSeq(w, alt, k + 1, u, i, cur, later)

AddVec(u, v) == [q \in DOMAIN u \cup DOMAIN v |->
                   Cap((IF q \in DOMAIN u THEN u[q] ELSE 0) + (IF q \in DOMAIN v THEN v[q] ELSE 0))]
RECURSIVE AddAll(_)
AddAll(vs) == IF vs = <<>> THEN EmptyVec ELSE AddVec(Head(vs), AddAll(Tail(vs)))

\* only names that use a name of ch need to be computed again
UsesAny(alts, ch) == \E a \in DOMAIN alts : \E k \in DOMAIN alts[a] : IsN(alts[a][k]) /\ alts[a][k][2] \in ch
CountAlts(alts, w, i, cur, later) ==
  TLCEval(AddAll([a \in DOMAIN alts |-> CountSeq(w, alts[a], 1, (i :> 1), i, cur, later)]))
RECURSIVE CountRow(_, _, _, _, _, _)
CountRow(tab, w, i, cur, later, ch) ==
  LET nxt == TLCEval([A \in DOMAIN tab |->
               IF UsesAny(tab[A], ch) THEN CountAlts(tab[A], w, i, cur, later) ELSE cur[A]])
      ch2 == TLCEval({A \in DOMAIN tab : nxt[A] # cur[A]})
  IN IF ch2 = {} THEN cur ELSE CountRow(tab, w, i, nxt, later, ch2)
CountStart(tab, w, i, later) ==
  LET none == [A \in DOMAIN tab |-> EmptyVec]
      one == TLCEval([A \in DOMAIN tab |-> CountAlts(tab[A], w, i, none, later)])
  IN CountRow(tab, w, i, one, later, {A \in DOMAIN tab : one[A] # EmptyVec})

RECURSIVE CountFrom(_, _, _, _)
CountFrom(tab, w, i, later) ==
  IF i < 0 THEN later
  ELSE CountFrom(tab, w, i - 1,
         TLCEval(later @@ (i :> CountStart(tab, w, i, later))))
CountChart(tab, w) == CountFrom(tab, w, Len(w), <<>>)

\* number of derivation trees of w from A (non-cyclic grammars), capped at CAP
NumTrees(tab, A, w) ==
  IF A \notin DOMAIN tab THEN 0
  ELSE LET r == CountChart(tab, w)[0][A] IN IF Len(w) \in DOMAIN r THEN r[Len(w)] ELSE 0
=============================================================================
