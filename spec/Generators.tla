----------------------------- MODULE Generators -----------------------------
(* The random graph generators as nondeterministic machines.                  *)
(*                                                                            *)
(* Which edges are taken is left open; what is promised is that the object    *)
(* ends as a simple connected graph of its order, with an edge count the      *)
(* request determines, planar when the count allows it, and that a request    *)
(* beyond what the object can hold is cut down instead of being pursued       *)
(* forever.  MCGen.tla explores the edge-by-edge construction; TraceGen.tla   *)
(* checks recorded runs of the C generators against GGen.                     *)
EXTENDS GraphMath

VARIABLES gp,        \* "none" | "empty" | "full"
          gn, gcap,  \* order; the number of edges the object can hold
          gadj,      \* adjacency lists
          gkey       \* the request that made it: <<kind, request, random seed>>
gvars == <<gp, gn, gcap, gadj, gkey>>

MaxEdges(n) == (n * (n - 1)) \div 2
PlanarLimit(n) == IF n < 3 THEN MaxEdges(n) ELSE (3 * n) - 6
Target(n, cap, req) == MinOf(req, MinOf(cap, MaxEdges(n)))
EdgesOf(a) == Cardinality(ArcsOfAdj(a)) \div 2

\* rot: the same graph with rotations that prove it planar, needed when the count allows planarity
Promised(n, cap, kind, req, a, m, rot) ==
    /\ Len(a) = n
    /\ IsSimpleAdj(a)
    /\ m = EdgesOf(a)
    /\ ConnectedIn(NbrsOf(a), 1..n)
    /\ CASE kind = "rand" -> n - 1 <= m /\ m <= MinOf(cap, MaxEdges(n))
         [] kind = "ex" ->
              /\ IF Target(n, cap, req) >= n - 1 THEN m = Target(n, cap, req) ELSE m >= n - 1
              /\ m <= PlanarLimit(n) =>
                    /\ Len(rot) = n /\ IsSimpleAdj(rot) /\ ArcsOfAdj(rot) = ArcsOfAdj(a)
                    /\ PlanarRotation(rot)

GInit == gp = "none" /\ gn = 0 /\ gcap = 0 /\ gadj = <<>> /\ gkey = <<>>
GNew(n, cap) == gp = "none" /\ gp' = "empty" /\ gn' = n /\ gcap' = cap /\ gadj' = [v \in 1..n |-> <<>>] /\ gkey' = <<>>
GGen(kind, req, sd, ret, a, m, rot) ==
    /\ gp = "empty" /\ ret = 1
    /\ Promised(gn, gcap, kind, req, a, m, rot) = TRUE
    /\ gp' = "full" /\ gadj' = a /\ gkey' = <<kind, req, sd>> /\ UNCHANGED <<gn, gcap>>
\* another object of the same order and capacity, same request, same state of the random numbers
GAgain(kind, req, sd, ret, a) ==
    gp = "full" /\ ret = 1 /\ gkey = <<kind, req, sd>> /\ a = gadj /\ UNCHANGED gvars
\* one edge of the object is deleted
GDelete(v, w, a, m) ==
    /\ gp = "full" /\ w \in Rng(gadj[v])
    /\ a = [x \in 1..gn |-> SelectSeq(gadj[x], LAMBDA y : {x, y} # {v, w})]
    /\ m = EdgesOf(a)
    /\ gadj' = a /\ gkey' = <<>> /\ UNCHANGED <<gp, gn, gcap>>
GReinit(a, m) == gp = "full" /\ a = [v \in 1..gn |-> <<>>] /\ m = 0 /\ gp' = "empty" /\ gadj' = a /\ gkey' = <<>> /\ UNCHANGED <<gn, gcap>>
GFree == gp # "none" /\ gp' = "none" /\ gn' = 0 /\ gcap' = 0 /\ gadj' = <<>> /\ gkey' = <<>>
=============================================================================
