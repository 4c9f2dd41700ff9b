------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* The reader on the text of every short token sequence, in two layouts.     *)
(*   n m names   t terminal   = production separator   | alternatives         *)
(*   ( ) [ ]                                                                *)
(***************************************************************************)
EXTENDS Reader, Extended, Json, IOUtils
SE == INSTANCE SequencesExt
CONSTANTS Tokens, MaxLen, FmtId, What

Fm == CASE FmtId = "BNF" -> BNF [] FmtId = "ABNF" -> ABNF
        [] FmtId = "F9" -> [ds |-> "{", de |-> "}", sep |-> <<"=", "=">>, alt |-> "+"]
        [] FmtId = "F4" -> [ds |-> "", de |-> "", sep |-> <<":", ":", "=">>, alt |-> "|"]
Name(x) == IF Fm.ds = "" THEN <<x>> ELSE <<Fm.ds, x, Fm.de>>
Chars(tk) == CASE tk = "n" -> Name("a") [] tk = "m" -> Name("b") [] tk = "t" -> <<"'", "x", "'">>
               [] tk = "=" -> Fm.sep [] tk = "|" -> <<Fm.alt>> [] OTHER -> <<tk>>
Spaced(lay, k) == CASE lay = "line" -> <<" ">>
                    [] lay = "loose" -> IF k % 3 = 0 THEN <<" ", ";", "'", ")", "\n">>
                                        ELSE IF k % 3 = 1 THEN <<"\n">> ELSE <<" ", ";", ";", "\r", "\n">>
Render(s, lay) == Flatten([k \in DOMAIN s |-> Chars(s[k]) \o Spaced(lay, k)])
ClassOf(ch) == IF ch \in {" ", "\n", "\r"} THEN "w" ELSE IF ch \in {"a", "b", "x"} THEN "a" ELSE "o"
Class(t) == [k \in DOMAIN t |-> ClassOf(t[k])]
Seqs == UNION {[1..k -> Tokens] : k \in 0..MaxLen}
Whole(s) == IF What \in {"grammar", "production"} THEN <<"n", "=">> \o s ELSE s

Init == \E s \in Seqs, lay \in {"line", "loose"} :
          LET t == Render(Whole(s), lay) IN ReaderInit(t, Class(t), Fm, What)
Spec == Init /\ [][Read]_rvars

(* --------------- the notation, declaratively, over tokens ---------------- *)
T(x) == <<"T", x>>
NT(x) == <<"N", x>>
Meta == Table(<<
  <<NT("grammar"), <<<<NT("production")>>, <<NT("production"), NT("grammar")>>>>>>,
  <<NT("production"), <<<<NT("name"), T("="), NT("alts")>>>>>>,
  <<NT("alts"), <<<<NT("expression")>>, <<NT("expression"), T("|"), NT("alts")>>>>>>,
  <<NT("expression"), <<<<NT("term")>>, <<NT("term"), NT("expression")>>>>>>,
  <<NT("term"), <<<<NT("name")>>, <<T("t")>>>> \o
                (IF What = "grammar" THEN <<<<T("("), NT("alts"), T(")")>>, <<T("["), NT("alts"), T("]")>>>> ELSE <<>>)>>,
  <<NT("name"), <<<<T("n")>>, <<T("m")>>>>>> >>)
\* the tokens of the text being read (spaces and comments removed)
RECURSIVE TokensFrom(_)
TokensFrom(p) ==
  LET q == Skip(p) IN
  IF q > N THEN ""
  ELSE LET tk == CHOOSE x \in Tokens \cup {"n", "="} :
                    LET cs == Chars(x) IN q + Len(cs) - 1 <= N /\ \A k \in DOMAIN cs : txt[q + k - 1] = cs[k]
       IN tk \o TokensFrom(q + Len(Chars(tk)))
\* the tokens of an abstract grammar
RECURSIVE AltsTokens(_)
TermTokens(x) == IF x = NT("a") THEN "n" ELSE IF x = NT("b") THEN "m" ELSE IF IsT(x) THEN "t"
                 ELSE IF IsG(x) THEN "(" \o AltsTokens(x[2]) \o ")" ELSE "[" \o AltsTokens(x[2]) \o "]"
SeqTokens(a) == Concat([k \in DOMAIN a |-> TermTokens(a[k])])
AltsTokens(alts) == Join([a \in DOMAIN alts |-> SeqTokens(alts[a])], "|")
GramTokens(A) == Concat([i \in DOMAIN A |-> TermTokens(A[i][1]) \o "=" \o AltsTokens(A[i][2])])
ValueTokens == IF What \in {"grammar", "production"} THEN GramTokens(prods) ELSE SeqTokens(prods)

\* an alternative sign directly after a separator is part of it; here they are always apart
\* accepted exactly if the tokens follow the declarative syntax
AcceptRight == Over => LET tk == TokensFrom(1) IN (phase = "ok") <=> Derives(Meta, What, tk)
\* and then the value consists of exactly these tokens
ValueRight == phase = "ok" => ValueTokens = TokensFrom(1)
FreshNames == <<"f0", "f1", "f2", "f3", "f4", "f5">>
\* normalizing keeps the language of every written rule
LowerRight ==
  (phase = "ok" /\ What = "grammar") =>
     LET g == Lower(prods, FreshNames)
         L1 == Lang(prods, 3)  L2 == Lang(g, 3)
     IN /\ Normalizes(prods, g)
        /\ \A nm \in DOMAIN L1 : L1[nm] = L2[nm]
        /\ Start(g) = Start(prods)

CaseOf(s, lay) == LET t == Render(Whole(s), lay) IN
  [text |-> Concat(t), fmt |-> FmtId, what |-> What, chars |-> t, cls |-> Class(t), auto |-> FALSE, f |-> Fm]
Lay(s) == IF Len(s) % 2 = 0 THEN "line" ELSE "loose"
DumpInit == /\ ndJsonSerialize(IOEnv.OUT, SE!SetToSeq({CaseOf(s, Lay(s)) : s \in Seqs}))
            /\ ReaderInit(<<>>, <<>>, Fm, What)
DumpSpec == DumpInit /\ [][FALSE]_rvars
=============================================================================
