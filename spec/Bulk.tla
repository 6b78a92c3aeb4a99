------------------------------- MODULE Bulk -------------------------------
(* Store seen from far away: only the number of edges and the capacity of a  *)
(* graph object, for orders where following single edges is out of reach.    *)
(* Each action stands for many steps of Store on distinct vertex pairs.      *)
(* MCBulk.tla checks the abstraction against edge-by-edge steps.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES bn, bm, bcap      \* order (0 = no object), edges, capacity in arcs
bvars == <<bn, bm, bcap>>
BInit == bn = 0 /\ bm = 0 /\ bcap = 0
\* room for k more edges between distinct pairs (written without products that overflow)
Room(k) == (bm + k) \div bn < (bn - 1) \div 2 \/ (bn < 40000 /\ 2 * (bm + k) <= bn * (bn - 1))
BNew(n, cap) == bn = 0 /\ cap >= 6 * n /\ bn' = n /\ bm' = 0 /\ bcap' = cap
\* k edges are added with growth allowed: all arrive
BGrow(k, oks, m, arcs, cap) ==
    /\ bn > 0 /\ (Room(k)) = TRUE /\ oks = k /\ m = bm + k /\ arcs = 2 * m /\ cap >= arcs /\ cap >= bcap
    /\ bm' = m /\ bcap' = cap /\ UNCHANGED bn
\* without growth: as many as fit
BFill(k, oks, m, arcs, cap) ==
    /\ bn > 0 /\ LET fit == (bcap \div 2) - bm IN oks = IF k <= fit THEN k ELSE fit
    /\ m = bm + oks /\ arcs = 2 * m /\ cap = bcap
    /\ bm' = m /\ bcap' = cap /\ UNCHANGED bn
BEnsure(req, ret, m, arcs, cap) ==
    /\ bn > 0 /\ ret = 1 /\ m = bm /\ arcs = 2 * m /\ cap >= req /\ cap >= bcap
    /\ bcap' = cap /\ UNCHANGED <<bn, bm>>
BDrop(k, oks, m, arcs, cap) ==
    /\ bn > 0 /\ k <= bm /\ oks = k /\ m = bm - k /\ arcs = 2 * m /\ cap = bcap
    /\ bm' = m /\ UNCHANGED <<bn, bcap>>
BCopy(ret, m, arcs, cap) == bn > 0 /\ ret = 1 /\ m = bm /\ arcs = 2 * m /\ cap >= arcs /\ UNCHANGED bvars
BFree == bn > 0 /\ bn' = 0 /\ bm' = 0 /\ bcap' = 0
=============================================================================
