------------------------------ MODULE Extended ------------------------------
(***************************************************************************)
(* Abstract grammars with groups <<"G", alts>> and optionals <<"O", alts>>:  *)
(* which plain grammars are a faithful normalization.                        *)
(***************************************************************************)
EXTENDS Gram

IsG(x) == x[1] = "G"
IsO(x) == x[1] = "O"
RECURSIVE NamesInAlts(_)
NamesInAlts(alts) ==
  UNION {UNION {LET x == alts[a][k] IN
                IF IsN(x) THEN {x[2]} ELSE IF IsT(x) THEN {} ELSE NamesInAlts(x[2])
                : k \in DOMAIN alts[a]} : a \in DOMAIN alts}
NamesIn(A) == {A[i][1][2] : i \in DOMAIN A} \cup UNION {NamesInAlts(A[i][2]) : i \in DOMAIN A}
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
RECURSIVE Complex(_)
\* number of groups and optionals
Complex(alts) == SumOf([a \in DOMAIN alts |-> SumOf([k \in DOMAIN alts[a] |->
                   IF alts[a][k][1] \in {"G", "O"} THEN 1 + Complex(alts[a][k][2]) ELSE 0])])
ComplexIn(A) == SumOf([i \in DOMAIN A |-> Complex(A[i][2])])
Plain(A) == ComplexIn(A) = 0

(* ---------------------------- normalization ----------------------------- *)
EmptyAlt == <<<<"T", "">>>>
\* rhs of the fresh name nm in g (exactly one production)
ProdsOf(g, nm) == {i \in DOMAIN g : g[i][1] = <<"N", nm>>}
RECURSIVE AltsMatch(_, _, _, _)
TermMatch(g, F, x, y) ==
  IF x[1] \in {"T", "N"} THEN x = y
  ELSE IF ~(IsN(y) /\ y[2] \in F) THEN FALSE
  ELSE IF Cardinality(ProdsOf(g, y[2])) # 1 THEN FALSE
  ELSE LET rhs == g[CHOOSE i \in ProdsOf(g, y[2]) : TRUE][2] IN
       IF IsG(x) THEN AltsMatch(g, F, x[2], rhs)
       ELSE IF Len(rhs) # Len(x[2]) + 1 THEN FALSE
       ELSE IF rhs[Len(rhs)] = EmptyAlt /\ AltsMatch(g, F, x[2], SubSeq(rhs, 1, Len(rhs) - 1)) THEN TRUE
       ELSE rhs[1] = EmptyAlt /\ AltsMatch(g, F, x[2], Tail(rhs))
AltsMatch(g, F, alts, rhs) ==
  IF Len(alts) # Len(rhs) THEN FALSE
  ELSE \A a \in DOMAIN alts :
         IF Len(alts[a]) # Len(rhs[a]) THEN FALSE
         ELSE \A k \in DOMAIN alts[a] : TermMatch(g, F, alts[a][k], rhs[a][k])
\* names of g that are not written in A
FreshIn(A, g) == Defined(g) \ NamesIn(A)
Written(A, g) == LET F == FreshIn(A, g) IN SelectSeq(g, LAMBDA p : ~(IsN(p[1]) /\ p[1][2] \in F))
RefCount(g, nm) == SumOf([i \in DOMAIN g |-> SumOf([a \in DOMAIN g[i][2] |->
                     SumOf([k \in DOMAIN g[i][2][a] |-> IF g[i][2][a][k] = <<"N", nm>> THEN 1 ELSE 0])])])
\* g is a normalization of A: same rules in order, every group or optional replaced
\* by a fresh name of its own with exactly the right alternatives, first rule first
Normalizes(A, g) ==
  LET F == FreshIn(A, g)
      W == Written(A, g)
  IN /\ Len(W) = Len(A)
     /\ Len(g) = Len(A) + ComplexIn(A)
     /\ Cardinality(F) = ComplexIn(A)
     /\ A # <<>> => g[1] = W[1]
     /\ \A i \in DOMAIN A : A[i][1] = W[i][1] /\ AltsMatch(g, F, A[i][2], W[i][2])
     /\ \A nm \in F : RefCount(g, nm) = 1

\* the normalization with names from the sequence nm (for model checking)
RECURSIVE LowerAlts(_, _, _)
RECURSIVE LowerSeq(_, _, _)
\* <<lowered alternative, new productions, next number>>
LowerSeq(s, n, nm) ==
  IF s = <<>> THEN <<<<>>, <<>>, n>>
  ELSE LET x == Head(s) IN
       IF x[1] \in {"T", "N"}
       THEN LET r == LowerSeq(Tail(s), n, nm) IN <<<<x>> \o r[1], r[2], r[3]>>
       ELSE LET in == LowerAlts(x[2], n + 1, nm)
                r == LowerSeq(Tail(s), in[3], nm)
                me == <<"N", nm[n + 1]>>
            IN <<<<me>> \o r[1],
                 <<<<me, IF IsO(x) THEN Append(in[1], EmptyAlt) ELSE in[1]>>>> \o in[2] \o r[2], r[3]>>
LowerAlts(alts, n, nm) ==
  IF alts = <<>> THEN <<<<>>, <<>>, n>>
  ELSE LET h == LowerSeq(Head(alts), n, nm)
           r == LowerAlts(Tail(alts), h[3], nm)
       IN <<<<h[1]>> \o r[1], h[2] \o r[2], r[3]>>
RECURSIVE LowerFrom(_, _, _)
LowerFrom(A, n, nm) ==
  IF A = <<>> THEN <<<<>>, <<>>>>
  ELSE LET h == LowerAlts(Head(A)[2], n, nm)
           r == LowerFrom(Tail(A), h[3], nm)
       IN <<<<<<Head(A)[1], h[1]>>>> \o r[1], h[2] \o r[2]>>
Lower(A, nm) == LET r == LowerFrom(A, 0, nm) IN r[1] \o r[2]

(* ------------------- what the extended notation means -------------------- *)
\* the texts of at most L characters derivable from each rule, directly
RECURSIVE ExtSeq(_, _, _)
RECURSIVE ExtAlts(_, _, _)
Short(S, L) == {s \in S : Len(s) <= L}
ExtSeq(D, s, L) ==
  IF s = <<>> THEN {""}
  ELSE LET x == Head(s)
           X == IF IsT(x) THEN {x[2]} ELSE IF IsN(x) THEN IF x[2] \in DOMAIN D THEN D[x[2]] ELSE {}
                ELSE IF IsG(x) THEN ExtAlts(D, x[2], L) ELSE ExtAlts(D, x[2], L) \cup {""}
       IN Short({u \o v : u \in X, v \in ExtSeq(D, Tail(s), L)}, L)
ExtAlts(D, alts, L) == UNION {ExtSeq(D, alts[a], L) : a \in DOMAIN alts}
RECURSIVE ExtFix(_, _, _)
ExtFix(A, D, L) ==
  LET D2 == TLCEval([nm \in DOMAIN D |-> UNION {ExtAlts(D, A[i][2], L) : i \in {j \in DOMAIN A : A[j][1] = <<"N", nm>>}}])
  IN IF D2 = D THEN D ELSE ExtFix(A, D2, L)
\* language of every rule of A up to length L
Lang(A, L) == ExtFix(A, [nm \in {A[i][1][2] : i \in DOMAIN A} |-> {}], L)
=============================================================================
