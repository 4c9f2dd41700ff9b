----------------------------- MODULE TraceText ------------------------------
(* Recorded readings of text: the machine of module Reader reads the same     *)
(* text and must come to the recorded result.                                 *)
EXTENDS Reader, Extended, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, st
tvars == <<rvars, c, st>>
Case == Trace[c]

\* without a format named: BNF exactly if the first real character is "<"
FormatOf(cs) ==
  IF cs.auto
  THEN LET p == SkipIn(cs.chars, cs.cls, 1) IN
       IF p <= Len(cs.chars) /\ cs.chars[p] = "<" THEN BNF ELSE ABNF
  ELSE cs.f

TInit == /\ c \in 1..Len(Trace) /\ st = "run"
         /\ ReaderInit(Trace[c].chars, Trace[c].cls, FormatOf(Trace[c]), Trace[c].what)
TStep == st = "run" /\ Read /\ UNCHANGED <<c, st>>

Value == CASE what = "grammar" -> prods
           [] what = "production" -> prods[1]
           [] what = "expression" -> prods
           [] OTHER -> prods[1]
ValueOk == IF what = "grammar" THEN Normalizes(prods, Case.r[2]) ELSE Case.r[2] = Value
\* the text was also read repeated, Case.times times: the meaning repeats, each repetition having
\* generated names of its own.  pieces: what the repetitions contributed, with how many did so
FarOk == IF phase # "ok" THEN TRUE
         ELSE IF Case.far # "ok" \/ Len(Case.pieces) # 1 THEN FALSE
         ELSE /\ Case.pieces[1][1] = Case.times
              /\ Case.anon = Case.times * ComplexIn(prods)
              /\ Normalizes(prods, Case.pieces[1][2])
Ok == /\ Case.outcome = "ok"
      /\ IF "times" \in DOMAIN Case THEN FarOk ELSE TRUE
      /\ IF phase = "ok" THEN (IF Case.r[1] = "ok" THEN ValueOk ELSE FALSE)
         ELSE Case.r[1] = "parse"
      \* the same abstract grammar written in BNF
      /\ IF "r2" \in DOMAIN Case THEN (IF phase = "ok" /\ Case.r2[1] = "ok" THEN Normalizes(prods, Case.r2[2]) ELSE FALSE) ELSE TRUE
Why == CASE Case.outcome # "ok" -> Case.outcome
         [] phase = "ok" /\ Case.r[1] # "ok" -> "text that follows the syntax is rejected"
         [] phase = "error" /\ Case.r[1] = "ok" -> "malformed text is accepted"
         [] phase = "error" -> "malformed text gives another error than a parse error"
         [] OTHER -> "the value read is not what is written"
Accept == st = "run" /\ Over /\ Ok = TRUE /\ st' = "ok" /\ UNCHANGED <<rvars, c>>
Reject == /\ st = "run" /\ Over /\ Ok = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ st' = "bad" /\ UNCHANGED <<rvars, c>>
TNext == TStep \/ Accept \/ Reject
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
