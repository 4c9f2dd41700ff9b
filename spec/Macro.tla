-------------------------------- MODULE Macro --------------------------------
(***************************************************************************)
(* The construction macros as a machine over tokens, and the + operators.     *)
(* Tokens: <<"N", name>>, <<"T", text>>, <<"=">> (::=), <<"|">>, <<";">>.     *)
(* State: the terms of the current alternative, the alternatives of the       *)
(* current production, its left hand side, the productions built so far.      *)
(***************************************************************************)
EXTENDS Gram
Empty == [terms |-> <<>>, alts |-> <<>>, lhs |-> <<>>, prods |-> <<>>]
Close(m) == IF m.lhs = <<>> THEN m
            ELSE [m EXCEPT !.prods = Append(@, <<m.lhs[1], Append(m.alts, m.terms)>>), !.lhs = <<>>, !.alts = <<>>, !.terms = <<>>]
\* feed token i; a name followed by ::= begins a production
Feed(m, toks, i) ==
  LET x == toks[i] IN
  CASE x[1] = "=" -> m
    [] x[1] = ";" -> Close(m)
    [] x[1] = "|" -> [m EXCEPT !.alts = Append(@, m.terms), !.terms = <<>>]
    [] x[1] = "N" /\ i < Len(toks) /\ toks[i + 1][1] = "=" -> [m EXCEPT !.lhs = <<x>>]
    [] OTHER -> [m EXCEPT !.terms = Append(@, x)]
RECURSIVE Run(_, _, _)
Run(m, toks, i) == IF i > Len(toks) THEN m ELSE Run(Feed(m, toks, i), toks, i + 1)
\* what each macro builds
Built(what, toks) ==
  LET m == Run(Empty, toks, 1) IN
  CASE what = "grammar" -> Close(m).prods
    [] what = "production" -> Close(m).prods[1]
    [] what = "expression" -> m.terms
    [] OTHER -> m.terms[1]

(* + : an operand is <<"E", terms>> or <<"t", term>> *)
Plus(x, y) == IF x[1] = "E" THEN (IF y[1] = "E" THEN x[2] \o y[2] ELSE Append(x[2], y[2]))
              ELSE IF y[1] = "E" THEN Append(y[2], x[2]) ELSE <<x[2], y[2]>>
=============================================================================
