------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* Validation of a grammar (Grammar::validate, GrammarParser::new): one scan *)
(* over the productions records defined and referenced names, then the       *)
(* verdict is reached.  The machine scans productions in order; the verdict   *)
(* names some referenced, undefined name.                                    *)
(***************************************************************************)
EXTENDS Gram

\* what a user may rely on
Valid(gr) == gr # <<>> /\ Undefined(gr) = {}
RECURSIVE ContainsFrom(_, _, _)
ContainsFrom(s, t, p) == IF p + Len(t) > Len(s) THEN FALSE
                         ELSE IF At(s, p, t) THEN TRUE ELSE ContainsFrom(s, t, p + 1)
Contains(s, t) == ContainsFrom(s, t, 0)
Bracketed(nm) == "<" \o nm \o ">"
\* result = <<"ok", "">> or <<error kind, message>>
ResultOk(gr, result) ==
  IF Valid(gr) THEN result[1] = "ok"
  ELSE /\ result[1] = "validation"
       /\ gr # <<>> => \E u \in Undefined(gr) : Contains(result[2], Bracketed(u))

VARIABLES g, i, defined, referenced, verdict
vars == <<g, i, defined, referenced, verdict>>

InitFor(gr) == g = gr /\ i = 0 /\ defined = {} /\ referenced = {} /\ verdict = <<"none">>
Refs(prod) == UNION {{alt[k][2] : k \in {m \in DOMAIN alt : IsN(alt[m])}} : alt \in Range(prod[2])}
Scan == /\ verdict = <<"none">> /\ i < Len(g)
        /\ i' = i + 1
        /\ defined' = defined \cup (IF IsN(g[i + 1][1]) THEN {g[i + 1][1][2]} ELSE {})
        /\ referenced' = referenced \cup Refs(g[i + 1])
        /\ UNCHANGED <<g, verdict>>
Conclude == /\ verdict = <<"none">> /\ i = Len(g)
            /\ \/ g = <<>> /\ verdict' = <<"validation", "empty">>
               \/ g # <<>> /\ referenced \subseteq defined /\ verdict' = <<"ok", "">>
               \/ g # <<>> /\ \E u \in referenced \ defined : verdict' = <<"validation", Bracketed(u)>>
            /\ UNCHANGED <<g, i, defined, referenced>>
Next == Scan \/ Conclude
VerdictRight == verdict # <<"none">> => ResultOk(g, verdict)
ScanRight == i = Len(g) => referenced = Used(g) /\ defined = Defined(g)
=============================================================================
