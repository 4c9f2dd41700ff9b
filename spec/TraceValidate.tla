---------------------------- MODULE TraceValidate ----------------------------
(* Recorded validations: validate, build_parser and GrammarParser::new agree   *)
(* with the specification on the same grammar, and leave it unchanged.         *)
EXTENDS Validate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, st
tvars == <<vars, c, st>>
Case == Trace[c]
TInit == c \in 1..Len(Trace) /\ st = "run" /\ InitFor(Trace[c].g)
TStep == st = "run" /\ Next /\ UNCHANGED <<c, st>>
\* the machine has reached a verdict: the recorded ones must be of the same kind
Agree(result) == result[1] = verdict[1] /\ ResultOk(Case.g, result)
Ok == /\ Case.outcome = "ok"
      /\ Agree(Case.validate) /\ Agree(Case.build) /\ Agree(Case.new)
      /\ Case.after = Case.g
Why == CASE Case.outcome # "ok" -> Case.outcome
         [] ~Agree(Case.validate) -> "validate gives the wrong result"
         [] Case.after # Case.g -> "validation changed the grammar"
         [] OTHER -> "building a parser gives the wrong result"
Accept == st = "run" /\ verdict # <<"none">> /\ Ok = TRUE /\ st' = "ok" /\ UNCHANGED <<vars, c>>
Reject == /\ st = "run" /\ verdict # <<"none">> /\ Ok = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ st' = "bad" /\ UNCHANGED <<vars, c>>
TNext == TStep \/ Accept \/ Reject
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
