------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading grammar text: the syntax of the notation as a pushdown machine.  *)
(*                                                                          *)
(*   txt   the text, as a sequence of characters (one-character strings)    *)
(*   cls   for each character: "w" white space, "a" alphabetic, "o" other    *)
(*   f     the format: [ds, de |-> name delimiters ("" if names are bare),   *)
(*                      sep |-> production separator (sequence of chars),    *)
(*                      alt |-> alternative separator]                       *)
(*   what  "grammar", or a single "production", "expression" or "term"       *)
(*                                                                          *)
(* The result is an abstract grammar: like a grammar of module Gram, but     *)
(* with two more kinds of term,                                              *)
(*      <<"G", alternatives>>   ( ... )      one of the alternatives         *)
(*      <<"O", alternatives>>   [ ... ]      one of the alternatives or ""   *)
(***************************************************************************)
EXTENDS Gram

VARIABLES txt, cls, f, what,   \* constant during a behaviour
          pos,                 \* next character to read
          phase,               \* "begin", "prod", "seq", "ok", "error"
          prods,               \* finished productions
          lhs,                 \* name of the production being read
          stack                \* open frames, innermost last
rvars == <<txt, cls, f, what, pos, phase, prods, lhs, stack>>

BNF  == [ds |-> "<", de |-> ">", sep |-> <<":", ":", "=">>, alt |-> "|"]
ABNF == [ds |-> "", de |-> "", sep |-> <<"=">>, alt |-> "/"]

(* -------------------------------- lexing -------------------------------- *)
N == Len(txt)
RECURSIVE EndOfComment(_, _)
EndOfComment(t, p) == IF p > Len(t) THEN p
                      ELSE IF t[p] \in {"\n", "\r"} THEN p ELSE EndOfComment(t, p + 1)
RECURSIVE SkipIn(_, _, _)
\* first position from p on that is neither white space nor in a comment
SkipIn(t, cl, p) == IF p > Len(t) THEN p
                    ELSE IF cl[p] = "w" THEN SkipIn(t, cl, p + 1)
                    ELSE IF t[p] = ";" THEN SkipIn(t, cl, EndOfComment(t, p))
                    ELSE p
Skip(p) == SkipIn(txt, cls, p)
RECURSIVE Find(_, _)
\* first position from p on with character ch, or 0
Find(ch, p) == IF p > N THEN 0 ELSE IF txt[p] = ch THEN p ELSE Find(ch, p + 1)
RECURSIVE BareEnd(_)
BareEnd(p) == IF p > N THEN p ELSE IF cls[p] = "w" \/ txt[p] \in {")", "]"} THEN p ELSE BareEnd(p + 1)
Text(a, b) == Concat([k \in 1..(b - a + 1) |-> txt[a + k - 1]])

NoTok == <<FALSE, "", 0>>
\* <<found, content, next position>>
QuotedAt(p) == IF p > N THEN NoTok
               ELSE IF txt[p] \notin {"'", "\""} THEN NoTok
               ELSE LET q == Find(txt[p], p + 1) IN
                    IF q = 0 THEN NoTok ELSE <<TRUE, Text(p + 1, q - 1), Skip(q + 1)>>
NameAt(p) == IF p > N THEN NoTok
             ELSE IF f.ds = ""
             THEN IF cls[p] = "a" THEN LET q == BareEnd(p) IN <<TRUE, Text(p, q - 1), Skip(q)>> ELSE NoTok
             ELSE IF txt[p] # f.ds THEN NoTok
             ELSE LET q == Find(f.de, p + 1) IN
                  IF q = 0 THEN NoTok ELSE <<TRUE, Text(p + 1, q - 1), Skip(q + 1)>>
SepAt(p) == p + Len(f.sep) - 1 <= N /\ \A k \in 1..Len(f.sep) : txt[p + k - 1] = f.sep[k]
\* position after a separator at p, an immediately following alternative sign, and space
AfterSep(p) == LET q == p + Len(f.sep) IN
               Skip(IF q <= N /\ txt[q] = f.alt THEN q + 1 ELSE q)
IsChar(p, ch) == p <= N /\ txt[p] = ch

(* -------------------------------- machine ------------------------------- *)
Top == stack[Len(stack)]
Frame(k) == [k |-> k, alts |-> <<>>, cur |-> <<>>]
SetTop(fr) == [stack EXCEPT ![Len(stack)] = fr]
Extended == what = "grammar"          \* groups and optionals are for whole grammars
Fixed == UNCHANGED <<txt, cls, f, what>>

ReaderInit(t, cl, fm, wh) ==
  /\ txt = t /\ cls = cl /\ f = fm /\ what = wh
  /\ pos = 1 /\ phase = "begin" /\ prods = <<>> /\ lhs = "" /\ stack = <<>>

Begin == /\ phase = "begin"
         /\ pos' = IF what = "grammar" THEN Skip(1) ELSE 1
         /\ phase' = IF what \in {"grammar", "production"} THEN "prod" ELSE "seq"
         /\ stack' = IF what \in {"grammar", "production"} THEN <<>> ELSE <<Frame("P")>>
         /\ UNCHANGED <<prods, lhs>> /\ Fixed

CanStart == LET nm == NameAt(pos) IN nm[1] /\ SepAt(nm[3])
StartProduction ==
  /\ phase = "prod" /\ CanStart = TRUE
  /\ LET nm == NameAt(pos) IN lhs' = nm[2] /\ pos' = AfterSep(nm[3])
  /\ stack' = <<Frame("P")>> /\ phase' = "seq"
  /\ UNCHANGED prods /\ Fixed

\* the token at pos within an alternative
Token == LET qt == QuotedAt(pos)  nm == NameAt(pos) IN
  CASE qt[1] -> IF SepAt(qt[3]) THEN <<"bad">> ELSE <<"term", <<"T", qt[2]>>, qt[3]>>
    [] ~qt[1] /\ nm[1] ->
         IF ~SepAt(nm[3]) THEN <<"term", <<"N", nm[2]>>, nm[3]>>
         ELSE IF what = "grammar" /\ Len(stack) = 1 /\ Top.cur # <<>> THEN <<"next">>
         ELSE <<"bad">>
    [] ~qt[1] /\ ~nm[1] ->
         IF pos > N THEN IF Len(stack) = 1 /\ Top.cur # <<>> THEN <<"end">> ELSE <<"bad">>
         ELSE IF IsChar(pos, "(") /\ Extended THEN <<"open", "G">>
         ELSE IF IsChar(pos, "[") /\ Extended THEN <<"open", "O">>
         ELSE IF (IsChar(pos, ")") /\ Top.k = "G") \/ (IsChar(pos, "]") /\ Top.k = "O")
              THEN IF Top.cur = <<>> \/ SepAt(Skip(pos + 1)) THEN <<"bad">> ELSE <<"close">>
         ELSE IF IsChar(pos, f.alt) /\ Top.cur # <<>> /\ what \in {"grammar", "production"} THEN <<"alt">>
         ELSE <<"bad">>

ReadTerm == /\ phase = "seq" /\ Token[1] = "term"
            /\ what = "term" => Top.cur = <<>>
            /\ stack' = SetTop([Top EXCEPT !.cur = Append(@, Token[2])])
            /\ pos' = Token[3]
            /\ UNCHANGED <<phase, prods, lhs>> /\ Fixed
Open == /\ phase = "seq" /\ Token[1] = "open"
        /\ stack' = Append(stack, Frame(Token[2]))
        /\ pos' = Skip(pos + 1)
        /\ UNCHANGED <<phase, prods, lhs>> /\ Fixed
Close == /\ phase = "seq" /\ Token[1] = "close"
         /\ LET x == <<Top.k, Append(Top.alts, Top.cur)>>
                up == SubSeq(stack, 1, Len(stack) - 1)
            IN stack' = [up EXCEPT ![Len(up)] = [@ EXCEPT !.cur = Append(@, x)]]
         /\ pos' = Skip(pos + 1)
         /\ UNCHANGED <<phase, prods, lhs>> /\ Fixed
Alternative == /\ phase = "seq" /\ Token[1] = "alt"
               /\ stack' = SetTop([Top EXCEPT !.alts = Append(@, Top.cur), !.cur = <<>>])
               /\ pos' = Skip(pos + 1)
               /\ UNCHANGED <<phase, prods, lhs>> /\ Fixed
Finished == Append(prods, << <<"N", lhs>>, Append(Top.alts, Top.cur)>>)
EndProduction == /\ phase = "seq" /\ Token[1] = "next"
                 /\ prods' = Finished /\ phase' = "prod" /\ stack' = <<>>
                 /\ UNCHANGED <<pos, lhs>> /\ Fixed
EndOfText == /\ phase = "seq" /\ Token[1] = "end"
             /\ prods' = IF what \in {"grammar", "production"} THEN Finished ELSE Top.cur
             /\ phase' = "ok"
             /\ UNCHANGED <<pos, lhs, stack>> /\ Fixed
Fail == /\ \/ phase = "prod" /\ CanStart = FALSE
           \/ phase = "seq" /\ Token[1] = "bad"
           \/ phase = "seq" /\ Token[1] = "term" /\ what = "term" /\ Top.cur # <<>>
        /\ phase' = "error"
        /\ UNCHANGED <<pos, prods, lhs, stack>> /\ Fixed
Read == Begin \/ StartProduction \/ ReadTerm \/ Open \/ Close \/ Alternative \/ EndProduction \/ EndOfText \/ Fail
Over == phase \in {"ok", "error"}
=============================================================================
