----------------------------- MODULE TraceRender -----------------------------
(* Recorded renderings of parse trees are the ones specified, and rendering    *)
(* leaves the tree as it was.  Mode "print" decides C17, "mermaid" C18.        *)
EXTENDS Render, Json, IOUtils
CONSTANT Mode
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, fin
vars == <<c, fin>>
Case == Trace[c]
Shots == Case.shots
\* a shot: tree (as observed through the accessors), print, mermaid, after (the tree again)
ShotOk(s) == IF Mode = "print" THEN s.print = PrintText(Nested(s.tree)) /\ s.print2 = s.print /\ s.after = s.tree
             ELSE s.mermaid = MermaidText(Nested(s.tree)) /\ s.mermaid2 = s.mermaid
\* Executed enlarged: times copies of the tree side by side below "wide ", at the end of a
\* chain of that many "chain "; tallies <<how many, text>> of the pieces, numbers relative to
\* the copy they belong to (R: the common parent).
Copies(k, x) == IF k = 0 THEN <<>> ELSE <<<<k, x>>>>
Sorted(ts) == {ts[i] : i \in DOMAIN ts}
FarPrintOk ==
  LET t == Nested(Case.tree)  n == Case.chain IN
  /\ Case.same = 1
  /\ Sorted(Case.chainlines) =
       (IF n = 0 THEN {} ELSE IF n = 1 THEN {<<1, "<chain > ::= <wide >">>}
        ELSE {<<1, "<chain > ::= <chain >">>, <<1, End \o "<chain > ::= <wide >">>} \cup
             (IF n = 2 THEN {} ELSE {<<n - 2, End \o "<chain > ::= <chain >">>}))
  /\ Case.head = <<(IF n = 0 THEN "" ELSE End) \o "<wide > ::=", Case.times>>
  /\ Case.front = Copies(Case.times - 1, Unlines(PrintLines(t, "", Mid)))
  /\ Case.last = Unlines(PrintLines(t, "", End))
FarMermaidOk ==
  LET t == Nested(Case.tree)  n == Case.chain IN
  /\ Case.same = 1 /\ Case.header = "flowchart TD"
  /\ Sorted(Case.chainedges) =
       (IF n = 0 THEN {} ELSE {<<1, "0[\"chain \"] --> 1[\"wide \"]">>} \cup
                              (IF n = 1 THEN {} ELSE {<<n - 1, "0[\"chain \"] --> 1[\"chain \"]">>}))
  /\ Case.edges = Copies(Case.times, Unlines(<<"R[\"wide \"] --> " \o Node(0, t)>> \o EdgeLines(t, 0)))
EscOk(e) == Mode = "print" \/ e[2] = Escape(e[1])
Far == "times" \in DOMAIN Case
Good == Case.outcome = "ok" /\ IF Far THEN Case.skip = 1 \/ (IF Mode = "print" THEN FarPrintOk ELSE FarMermaidOk) ELSE (\A k \in DOMAIN Shots : ShotOk(Shots[k])) /\ (\A k \in DOMAIN Case.esc : EscOk(Case.esc[k]))
Init == c \in 1..Len(Trace) /\ fin = "run"
Accept == fin = "run" /\ Good = TRUE /\ fin' = "ok" /\ UNCHANGED c
Reject == /\ fin = "run" /\ Good = FALSE
          /\ PrintT(<<"BAD", c, IF Case.outcome # "ok" THEN Case.outcome
                                 ELSE IF Mode = "print" THEN "the printed tree is not the tree" ELSE "the flowchart is not the tree">>)
          /\ fin' = "bad" /\ UNCHANGED c
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
