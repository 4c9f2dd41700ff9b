---------------------------- MODULE TraceGenerate ----------------------------
(***************************************************************************)
(* Recorded generations are behaviours of Generate.  Events of a case:        *)
(*   <<"c", p, d, a>>        the strategy was offered production p at depth d *)
(*                           and chose alternative a (0: declined)            *)
(*   <<"v", name, text, y>>  the callback was offered text for name, verdict y*)
(* and the result is <<"ok", sentence>> or <<error kind, message>>.            *)
(*   <<"x", <<n, block>>...>>  blocks of events seen n times, in any order:   *)
(*                           each begins and ends where the row begins        *)
(* entry: "strat" (choices only), "cbs" (choices and verdicts), "cb" (verdicts *)
(* only: the choices are inferred), "plain" (the result only), "flat" (a      *)
(* grammar of one production without names: how often each text was offered). *)
(* Mode selects the property being decided:                                   *)
(*   "language"  C10: sentence, offered productions and depths                *)
(*   "refuse"    C11: error or sentence                                       *)
(*   "callback"  C12: what the callback sees and decides                      *)
(***************************************************************************)
EXTENDS Generate, Json, IOUtils
CONSTANT Mode
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, der, l, st, out, confs, fin   \* der: a sentence is derivable
vars == <<c, der, l, st, out, confs, fin>>
Case == Trace[c]
G == Case.g
Ev == Case.events[l]
NEv == Len(Case.events)
Ok == Case.result[1] = "ok"
Err == Case.result[1] = "generate"

(* ---- inference of the choices from the verdicts alone (entry "cb") ------ *)
(* A configuration is a stack of <<"d", name, text>> (accepted) and            *)
(* <<"r", name>> (rejected, must be expanded again).  An offered text must be   *)
(* one of the alternatives filled with the accepted texts on top of the stack. *)
NtCount(alt) == Cardinality({k \in DOMAIN alt : IsN(alt[k]) /\ Has(G, alt[k])})
RECURSIVE Fill(_, _, _, _)
\* Fill alternative alt[k..] with the items its[j..]: the text, or a mismatch
Fill(alt, k, its, j) ==
  IF k > Len(alt) THEN <<TRUE, "">>
  ELSE LET x == alt[k] IN
       IF IsN(x) /\ Has(G, x)
       THEN IF its[j][1] = "d" /\ its[j][2] = x[2]
            THEN LET r == Fill(alt, k + 1, its, j + 1) IN <<r[1], its[j][3] \o r[2]>>
            ELSE <<FALSE, "">>
       ELSE LET r == Fill(alt, k + 1, its, j) IN
            <<r[1], (IF IsT(x) THEN x[2] ELSE "<" \o x[2] \o ">") \o r[2]>>
\* stacks left below the items consumed by an expansion of name giving txt
Reductions(stk, name, txt) ==
  UNION {LET alt == Alts(G, name)[a]  m == NtCount(alt) IN
         IF m <= Len(stk) /\ Fill(alt, 1, SubSeq(stk, Len(stk) - m + 1, Len(stk)), 1) = <<TRUE, txt>>
         THEN {SubSeq(stk, 1, Len(stk) - m)} ELSE {}
         : a \in DOMAIN Alts(G, name)}
\* a retry on top may be fulfilled by this expansion, or stay and be the parent of it
Bases(stk, name) == {stk} \cup (IF stk # <<>> /\ stk[Len(stk)] = <<"r", name>> THEN {Pop(stk)} ELSE {})
InferNext(cs, ev) ==
  UNION {UNION {{Append(b, IF ev[4] = 1 THEN <<"d", ev[2], ev[3]>> ELSE <<"r", ev[2]>>)
                 : b \in Bases(base, ev[2])}
                : base \in Reductions(stk, ev[2], ev[3])} : stk \in cs}
InferDone(cs) == <<<<"d", G[1][1][2], Case.result[2]>>>> \in cs

(* -------------------------------- checking ------------------------------- *)
Stepwise == Case.entry \in {"strat", "cbs"}
Init == /\ c \in 1..Len(Trace) /\ der = Derivable(Case.g) /\ l = 1 /\ fin = "run"
        /\ st = IF Len(G) > 0 /\ IsN(G[1][1]) THEN Begin(G) ELSE <<>>
        /\ out = <<>>                  \* <<sentence>> once the start rule's text is accepted
        /\ confs = {<<>>}
\* C10 does not pin down what a rejection repeats (C12 does): there only membership counts
ByEvents == Mode # "refuse" /\ Case.entry # "flat" /\ ~Case.long /\ der /\ (Mode = "language" => Case.entry = "strat" \/ (Case.entry = "cbs" /\ Case.accepting))
Ready == fin = "run" /\ Case.outcome = "ok" /\ ByEvents /\ l <= NEv
DepthOk == Mode # "language" \/ Ev[3] = Top(st).d
ChooseOk == Ev[1] = "c" /\ Ev[4] # 0 /\ MayChoose(G, st, Ev[2], Ev[4]) /\ DepthOk
OfferOk == Ev[1] = "v" /\ MayOffer(st, Ev[2], Ev[3])
\* what a block of events makes of a stack (<<FALSE, ...>>: it is not explained)
RECURSIVE Play(_, _, _)
Play(s, evs, j) ==
  IF j > Len(evs) THEN <<TRUE, s>>
  ELSE LET e == evs[j] IN
       IF e[1] = "c"
       THEN IF e[4] # 0 /\ MayChoose(G, s, e[2], e[4]) THEN Play(DoChoose(G, s, e[2], e[4]), evs, j + 1) ELSE <<FALSE, s>>
       ELSE IF MayOffer(s, e[2], e[3]) THEN Play(IF e[4] = 1 THEN DoAccept(G, s) ELSE DoReject(s), evs, j + 1) ELSE <<FALSE, s>>
LoopOk == Ev[1] = "x" /\ \A j \in DOMAIN Ev[2] : Play(st, Ev[2][j][2], 1) = <<TRUE, st>>
DeclineOk == Ev[1] = "c" /\ Ev[4] = 0 /\ l = NEv /\ Asking(st) /\ Ev[2] \in DOMAIN G
             /\ G[Ev[2]][1] = <<"N", Top(st).n>> /\ DepthOk
\* without a callback every complete expansion is accepted
RECURSIVE Absorb(_)
Absorb(s) == IF Case.entry # "strat" \/ ~Offering(s[1]) THEN s
             ELSE Absorb(<<DoAccept(G, s[1]), IF Len(s[1]) = 1 THEN <<Top(s[1]).txt>> ELSE s[2]>>)
Choose == /\ (Ready /\ Stepwise) = TRUE /\ ChooseOk = TRUE
          /\ LET s == Absorb(<<DoChoose(G, st, Ev[2], Ev[4]), out>>) IN st' = s[1] /\ out' = s[2]
          /\ l' = l + 1 /\ UNCHANGED <<c, der, confs, fin>>
Offer == /\ (Ready /\ Stepwise) = TRUE /\ OfferOk = TRUE
         /\ IF Ev[4] = 1
            THEN st' = DoAccept(G, st) /\ out' = (IF Len(st) = 1 THEN <<Top(st).txt>> ELSE out)
            ELSE st' = DoReject(st) /\ UNCHANGED out
         /\ l' = l + 1 /\ UNCHANGED <<c, der, confs, fin>>
Loop == /\ (Ready /\ Stepwise) = TRUE /\ LoopOk = TRUE
        /\ l' = l + 1 /\ UNCHANGED <<c, der, st, out, confs, fin>>
Decline == /\ (Ready /\ Stepwise) = TRUE /\ DeclineOk = TRUE
           /\ l' = l + 1 /\ out' = <<"declined">> /\ st' = <<>> /\ UNCHANGED <<c, der, confs, fin>>
Infer == /\ (Ready /\ Case.entry = "cb") = TRUE
         /\ confs' = TLCEval(InferNext(confs, Ev))
         /\ confs' # {}
         /\ l' = l + 1 /\ UNCHANGED <<c, der, st, out, fin>>

Declined == NEv > 0 /\ Case.events[NEv][1] = "c" /\ Case.events[NEv][4] = 0
\* one production of terminals: as many rejections as the callback gives, each of the text of
\* an alternative, then the text that is accepted
RECURSIVE Cat(_, _)
Cat(alt, k) == IF k > Len(alt) THEN "" ELSE alt[k][2] \o Cat(alt, k + 1)
RECURSIVE Rejections(_)
Rejections(k) == IF k = 0 THEN 0 ELSE Rejections(k - 1) + (IF Case.events[k][4] = 0 THEN Case.events[k][5] ELSE 0)
FlatOk == /\ Ok
          /\ \A k \in 1..NEv : /\ Case.events[k][2] = G[1][1][2]
                               /\ \E a \in DOMAIN G[1][2] : Case.events[k][3] = Cat(G[1][2][a], 1)
          /\ Rejections(NEv) = Case.rejects[1][2]
          /\ \E k \in 1..NEv : /\ Case.events[k][4] = 1 /\ Case.events[k][5] = 1 /\ Case.events[k][3] = Case.result[2]
                               /\ \A j \in 1..NEv : Case.events[j][4] = 1 => j = k
ResultOk ==
  IF ~der THEN Err /\ NEv = 0
  ELSE IF Declined THEN Err
  ELSE IF Stepwise /\ ByEvents
       THEN \/ st = <<>> /\ Ok /\ Case.result[2] = out[1]
            \/ st # <<>> /\ Err /\ MayGiveUp(G, st)
  ELSE IF Case.entry = "cb" /\ ByEvents
       THEN IF Ok THEN InferDone(confs) ELSE Err /\ \E p \in DOMAIN G : Hollow(G, p)
  ELSE IF Case.entry = "flat" THEN FlatOk
  ELSE \* the result only
       IF Ok THEN Len(Case.result[2]) > 150 \/ Sentence(G, Case.result[2])
       ELSE Err /\ \E p \in DOMAIN G : Hollow(G, p)
Refusal ==  \* C11 compares only which way it ended
  IF ~der THEN Err /\ NEv = 0
  ELSE IF Declined THEN TRUE
  ELSE \/ Ok /\ (Stepwise => NEv > 0)
       \/ Err /\ \E p \in DOMAIN G : Hollow(G, p)
\* C12 does not say when generation is refused, C10 says nothing about errors
OutOfScope == Mode \in {"language", "callback"} /\ Err /\ NEv = 0
AtEnd == fin = "run" /\ Case.outcome = "ok" /\ (~ByEvents \/ l > NEv)
Verdict == OutOfScope \/ (IF Mode = "refuse" THEN Refusal ELSE ResultOk)
Accept == AtEnd /\ Verdict = TRUE /\ fin' = "ok" /\ UNCHANGED <<c, der, l, st, out, confs>>
Stuck == Ready /\ IF Stepwise THEN ~(ChooseOk \/ OfferOk \/ DeclineOk \/ LoopOk)
                  ELSE Case.entry = "cb" /\ InferNext(confs, Ev) = {}
Why == CASE Case.outcome # "ok" -> Case.outcome
         [] l <= NEv /\ ByEvents -> "an event no expansion explains"
         [] ~der -> "no sentence is derivable but generation was not refused at once"
         [] OTHER -> "the result is not the expansion of the choices"
Reject == /\ fin = "run"
          /\ \/ Case.outcome # "ok"
             \/ Stuck = TRUE
             \/ AtEnd /\ Verdict = FALSE
          /\ PrintT(<<"BAD", c, Why>>)
          /\ fin' = "bad" /\ UNCHANGED <<c, der, l, st, out, confs>>
Next == Choose \/ Offer \/ Loop \/ Decline \/ Infer \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
