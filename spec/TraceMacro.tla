----------------------------- MODULE TraceMacro -----------------------------
(* Values built by the macros and the + operators, as recorded from compiled    *)
(* code.  A macro case: what, toks, built (the value), read (<<value read from  *)
(* the corresponding text>>, or <<>> if no text corresponds).  An operator      *)
(* case: what = "plus", x, y, built, and the operands afterwards if borrowed.   *)
EXTENDS Macro, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, fin
vars == <<c, fin>>
Case == Trace[c]
Good == /\ Case.outcome = "ok"
        /\ IF Case.what = "plus"
           THEN \A k \in DOMAIN Case.sums :
                  LET s == Case.sums[k] IN s.built = Plus(s.x, s.y) /\ s.xafter = s.x /\ s.yafter = s.y
           ELSE /\ Case.built = Built(Case.what, Case.toks)
                /\ Case.read # <<>> => Case.read[1] = Case.built
Init == c \in 1..Len(Trace) /\ fin = "run"
Accept == fin = "run" /\ Good = TRUE /\ fin' = "ok" /\ UNCHANGED c
Reject == /\ fin = "run" /\ Good = FALSE
          /\ PrintT(<<"BAD", c, IF Case.outcome # "ok" THEN Case.outcome ELSE "built something else than what is written">>)
          /\ fin' = "bad" /\ UNCHANGED c
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
