------------------------------ MODULE Generate ------------------------------
(***************************************************************************)
(* Sentence generation as a stack machine.  A frame is one expansion:         *)
(*    n, d     the nonterminal and its nesting depth                          *)
(*    p, a     the production and alternative chosen (p = 0: not chosen yet)  *)
(*    k, txt   next term of the alternative, text produced so far             *)
(* The strategy's choices and the callback's verdicts are the only inputs of  *)
(* the machine; everything else is determined.                                *)
(***************************************************************************)
EXTENDS Gram

Frame(n, d) == [n |-> n, d |-> d, p |-> 0, a |-> 0, k |-> 1, txt |-> ""]
Top(st) == st[Len(st)]
SetTop(st, f) == [st EXCEPT ![Len(st)] = f]

\* nonterminal x has a production
Has(G, x) == \E i \in DOMAIN G : G[i][1] = x

(* run to the next point where the strategy or the callback is asked *)
RECURSIVE Settle(_, _)
Settle(G, st) ==
  LET f == Top(st) IN
  IF f.p = 0 THEN st
  ELSE LET alt == G[f.p][2][f.a] IN
       IF f.k > Len(alt) THEN st
       ELSE LET x == alt[f.k] IN
            IF IsN(x) /\ Has(G, x)
            THEN Append(SetTop(st, [f EXCEPT !.k = @ + 1]), Frame(x[2], f.d + 1))
            ELSE Settle(G, SetTop(st, [f EXCEPT !.k = @ + 1,
                       !.txt = @ \o (IF IsT(x) THEN x[2] ELSE "<" \o x[2] \o ">")]))

Begin(G) == <<Frame(G[1][1][2], 0)>>
Asking(st) == st # <<>> /\ Top(st).p = 0
Offering(st) == st # <<>> /\ Top(st).p # 0

\* the strategy may be offered production p for the expansion on top, and may choose a
MayChoose(G, st, p, a) ==
  /\ Asking(st)
  /\ p \in DOMAIN G
  /\ G[p][1] = <<"N", Top(st).n>>
  /\ a \in DOMAIN G[p][2]
DoChoose(G, st, p, a) == Settle(G, SetTop(st, [Top(st) EXCEPT !.p = p, !.a = a]))

\* the callback is offered the text of the expansion on top
MayOffer(st, n, txt) == Offering(st) /\ Top(st).n = n /\ Top(st).txt = txt
Pop(st) == SubSeq(st, 1, Len(st) - 1)
\* accepted: the text becomes part of the parent; rejected: this expansion, and only it,
\* starts again with nothing
DoAccept(G, st) ==
  IF Len(st) = 1 THEN <<>>
  ELSE LET up == Pop(st) IN
       Settle(G, SetTop(up, [Top(up) EXCEPT !.txt = @ \o Top(st).txt]))
DoReject(st) == SetTop(st, Frame(Top(st).n, Top(st).d))

\* generation is refused, before asking anything, iff no terminal string is derivable
\* from the first production's left hand side
Derivable(G) == Len(G) > 0 /\ IsN(G[1][1]) /\ G[1][1][2] \in Productive(Table(G))
\* a production without a non-empty alternative may be answered by an error
Hollow(G, p) == \A a \in DOMAIN G[p][2] : G[p][2][a] = <<>>
MayGiveUp(G, st) == Asking(st) /\ \E p \in DOMAIN G : G[p][1] = <<"N", Top(st).n>> /\ Hollow(G, p)

\* sentences: what is derivable if undefined names stand for <name>
Sentence(G, w) == Derives(Table(UndefAsText(G)), G[1][1][2], w)
=============================================================================
