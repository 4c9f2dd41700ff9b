------------------------------ MODULE Display -------------------------------
(* Formatting values as BNF text (sequences of one-character strings).        *)
EXTENDS Gram
Chr(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]
HasChar(s, ch) == \E k \in 1..Len(s) : SubSeq(s, k, k) = ch
ShowTerm(x) == IF IsN(x) THEN <<"<">> \o Chr(x[2]) \o <<">">>
               ELSE IF HasChar(x[2], "'") THEN <<"\"">> \o Chr(x[2]) \o <<"\"">>
               ELSE <<"'">> \o Chr(x[2]) \o <<"'">>
RECURSIVE JoinS(_, _)
JoinS(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o sep \o JoinS(Tail(ss), sep)
ShowAlt(a) == JoinS([k \in DOMAIN a |-> ShowTerm(a[k])], <<" ">>)
ShowProd(p) == ShowTerm(p[1]) \o <<" ", ":", ":", "=", " ">> \o JoinS([a \in DOMAIN p[2] |-> ShowAlt(p[2][a])], <<" ", "|", " ">>)
ShowGram(g) == JoinS([i \in DOMAIN g |-> ShowProd(g[i])], <<"\n">>) \o <<"\n">>

\* what can be formatted faithfully
TermOk(x) == IF IsN(x) THEN ~HasChar(x[2], ">") ELSE ~(HasChar(x[2], "'") /\ HasChar(x[2], "\""))
AltOk(a) == a # <<>> /\ \A k \in DOMAIN a : TermOk(a[k])
ProdOk(p) == IsN(p[1]) /\ TermOk(p[1]) /\ p[2] # <<>> /\ \A a \in DOMAIN p[2] : AltOk(p[2][a])
GramOk(g) == g # <<>> /\ \A i \in DOMAIN g : ProdOk(g[i])
=============================================================================
