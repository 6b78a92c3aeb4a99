------------------------------- MODULE MCMath -------------------------------
(* Exhaustive agreement of the graph mathematics with the definitions: one    *)
(* state per labelled graph on 1..N, theorems as invariants.                  *)
EXTENDS GraphMath
CONSTANTS N, Brute, Rot
VARIABLE E
Pairs == {<<a, b>> \in (1..N) \X (1..N) : a < b}
Init == E \in SUBSET Pairs
Next == UNCHANGED E
Spec == Init /\ [][Next]_E

Sym(S) == S \cup {<<p[2], p[1]>> : p \in S}
nb == NbrsOfArcs(N, Sym(E))
Contains(h) == \E S \in SUBSET E : IsSubdivision(NbrsOfArcs(N, Sym(S)), h)

\* all rotations: first neighbour fixed, the rest permuted
RECURSIVE SeqsOf(_)
SeqsOf(S) == IF S = {} THEN {<<>>}
             ELSE UNION {{Append(s, x) : s \in SeqsOf(S \ {x})} : x \in S}
RotAt(S) == IF S = {} THEN {<<>>} ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                       IN {<<m>> \o s : s \in SeqsOf(S \ {m})}
RECURSIVE RotUpTo(_)
RotUpTo(k) == IF k = 0 THEN {<<>>} ELSE {Append(r, s) : r \in RotUpTo(k - 1), s \in RotAt(nb[k])}

K4Agrees == Brute => (HasK4(nb) <=> Contains("K4"))
K23Agrees == Brute => (HasK23(nb) <=> Contains("K23"))
K23Reduces == HasK23(nb) <=> HasK23Def(nb)
\* Kuratowski, Chartrand-Harary: exactly one of embedding and obstruction exists
Kuratowski == Rot => ((\E r \in RotUpTo(N) : PlanarRotation(r)) <=> ~(Contains("K5") \/ Contains("K33")))
Outer == Rot => ((\E r \in RotUpTo(N) : PlanarRotation(r) /\ OuterFaceRotation(r)) <=> IsOuterplanar(nb))
=============================================================================
