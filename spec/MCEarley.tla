------------------------------ MODULE MCEarley ------------------------------
(* Earley over every grammar of a small universe that is not cyclic: names s  *)
(* and a, alternatives of at most two terms over s, a, "x" and "".            *)
EXTENDS Earley, Json, IOUtils
CONSTANTS SAlts, AAlts, Inputs

Sym == {<<"N", "s">>, <<"N", "a">>, <<"T", "x">>, <<"T", "">>}
AltU == {<<x>> : x \in Sym} \cup {<<x, y>> : x \in Sym, y \in Sym \ {<<"T", "">>}} \cup {<<>>}
\* sequences without repetition of at most n elements, in one fixed order
RhsU(n) == {SetSeq(S) : S \in {T \in UNION {{{x} : x \in AltU}, IF n >= 2 THEN {{x, y} : x \in AltU, y \in AltU} ELSE {}} : T # {}}}
GU == {<<<< <<"N", "s">>, rs>>, << <<"N", "a">>, ra>> >> : rs \in RhsU(SAlts), ra \in RhsU(AAlts)}
Universe == {gr \in GU : ~Cyclic(Table(gr))}

Init == \E gr \in Universe, input \in Inputs : InitFor(gr, input)
Spec == Init /\ [][Step]_vars
=============================================================================
