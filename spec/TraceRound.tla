----------------------------- MODULE TraceRound -----------------------------
(* Recorded round trips: value, its text, the value read back, its text,       *)
(* and the value after serialization.                                         *)
EXTENDS Reader, Display, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, st
tvars == <<rvars, c, st>>
Case == Trace[c]
HasText(cs) == cs.outcome = "ok" /\ cs.skip = FALSE
TInit == /\ c \in 1..Len(Trace) /\ st = "run"
         /\ LET cs == Trace[c] IN
            IF HasText(cs) THEN ReaderInit(cs.chars, cs.cls, BNF, cs.what) ELSE ReaderInit(<<>>, <<>>, BNF, "grammar")
TStep == st = "run" /\ Read /\ UNCHANGED <<c, st>>
Value == IF what \in {"grammar", "expression"} THEN prods ELSE prods[1]
InScope == CASE Case.what = "grammar" -> GramOk(Case.v) [] Case.what = "production" -> ProdOk(Case.v)
             [] Case.what = "expression" -> AltOk(Case.v) [] OTHER -> TermOk(Case.v)
\* the text denotes the value, the code reads it back, formatting is stable
Denotes == IF phase = "ok" THEN Value = Case.v ELSE FALSE
Back(r) == IF r[1] = "ok" THEN r[2] = Case.v ELSE FALSE
Again == IF Case.what = "grammar" THEN Back(Case.auto_r) ELSE TRUE
\* the same, the grammar being Case.v repeated Case.times times; pieces: the repetitions found
Pieces(ps) == IF Len(ps) = 1 THEN ps[1] = <<Case.times, Case.v>> ELSE FALSE
FarOk == Pieces(Case.far.back.pieces) /\ Case.far.back.same = TRUE /\ Case.far.back.text2 = TRUE
FarSerde == Pieces(Case.far.serde)
Far == "times" \in DOMAIN Case
Ok == IF Case.outcome # "ok" THEN FALSE
      ELSE IF Case.skip THEN TRUE
      ELSE IF ~Back(Case.serde) THEN FALSE
      ELSE IF Far /\ ~FarSerde THEN FALSE
      ELSE IF ~InScope THEN TRUE
      ELSE IF Far /\ ~FarOk THEN FALSE
      ELSE Denotes /\ Back(Case.r) /\ Again /\ Case.text2 = Case.text
Why == CASE Case.outcome # "ok" -> Case.outcome
         [] ~Back(Case.serde) \/ (IF Far THEN ~FarSerde ELSE FALSE) -> "serialization changes the value"
         [] ~Denotes -> "the formatted text does not denote the value"
         [] ~Back(Case.r) \/ ~Again \/ (IF Far THEN ~FarOk ELSE FALSE) -> "the formatted text does not read back as the value"
         [] OTHER -> "formatting again gives another text"
Accept == st = "run" /\ Over /\ Ok = TRUE /\ st' = "ok" /\ UNCHANGED <<rvars, c>>
Reject == /\ st = "run" /\ Over /\ Ok = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ st' = "bad" /\ UNCHANGED <<rvars, c>>
TNext == TStep \/ Accept \/ Reject
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
