------------------------------ MODULE MCBulk ------------------------------
(* Edge-by-edge steps (a set of pairs, a capacity that doubles) under Bulk:  *)
(* every run of single steps is one of the bulk actions, and the pieces add  *)
(* up, so bulk events may be cut anywhere.                                   *)
EXTENDS Bulk
CONSTANTS N, Steps
VARIABLES E, cap, mark      \* pairs, capacity of the fine machine; its edge count at the last bulk event
mv == <<bvars, E, cap, mark>>
All == {{a, b} : a, b \in 1..N} \ {{a} : a \in 1..N}
Init == E = {} /\ cap = 6 * N /\ mark = 0 /\ bn = N /\ bm = 0 /\ bcap = 6 * N
Card == Cardinality(E)
Min(a, b) == IF a < b THEN a ELSE b
Step == /\ \E p \in All \ E : /\ p = CHOOSE q \in All \ E : TRUE
                              /\ E' = E \cup {p}
                              /\ cap' = IF 2 * Card + 2 > cap THEN Min(2 * cap, N * (N - 1)) ELSE cap
        /\ UNCHANGED <<bvars, mark>>
Cut == /\ Card > mark /\ BGrow(Card - mark, Card - mark, Card, 2 * Card, cap) /\ mark' = Card /\ UNCHANGED <<E, cap>>
Drop == /\ Card = mark /\ Card > 0
        /\ E' = E \ {CHOOSE q \in E : TRUE} /\ BDrop(1, 1, Card - 1, 2 * (Card - 1), cap)
        /\ mark' = Card - 1 /\ UNCHANGED cap
Spec == Init /\ [][Step \/ Cut \/ Drop]_mv
Fits == cap >= 2 * Card /\ bcap >= 2 * bm
\* a bulk action is enabled whenever single steps were made, and a further edge always has room
CutPossible == Card > mark => /\ Room(Card - mark) /\ 2 * Card <= N * (N - 1)
Bound == TLCGet("level") <= Steps
=============================================================================
