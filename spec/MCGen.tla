------------------------------- MODULE MCGen -------------------------------
(* The construction edge by edge, for every choice: a tree over the vertices *)
(* in turn, then edges that keep the graph planar up to the planar part of   *)
(* the request, then any edges.  Planarity is decided by brute force (no     *)
(* K3,3, no K5, no K5 with a subdivided edge: complete up to six vertices).  *)
(* What is checked: the construction never gets stuck short of its target,   *)
(* whatever was chosen before, and its outcome is what GGen allows.          *)
EXTENDS Generators
CONSTANTS N, Caps, Reqs
VARIABLES E, st, req     \* edges so far, stage, request
mv == <<gvars, E, st, req>>
V == 1..N
All == {{a, b} : a, b \in V} \ {{a} : a \in V}
K5Free(F) == \A S \in SUBSET V : Cardinality(S) = 5 =>
    LET miss == {p \in All : p \subseteq S} \ F IN
      /\ miss # {}
      /\ Cardinality(miss) = 1 => LET p == CHOOSE x \in miss : TRUE
                                      out == V \ S
                                  IN \A w \in out : ~\A x \in p : {x, w} \in F
K33Free(F) == \A S, T \in SUBSET V : (Cardinality(S) = 3 /\ Cardinality(T) = 3 /\ S \cap T = {})
                  => ~\A a \in S, b \in T : {a, b} \in F
Planar(F) == K5Free(F) /\ K33Free(F)
SortedSeq(S) == LET RECURSIVE sq(_)
                    sq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN <<x>> \o sq(X \ {x})
                IN sq(S)
AdjOf(F) == [v \in V |-> SortedSeq({w \in V : {v, w} \in F})]
PTarget == MinOf(Target(N, gcap, req), PlanarLimit(N))

MInit == /\ \E c \in Caps : gp = "empty" /\ gn = N /\ gcap = c /\ gadj = [v \in 1..N |-> <<>>] /\ gkey = <<>>
         /\ E = {} /\ st = 1 /\ req \in Reqs
Keep == UNCHANGED <<gvars, req>>
Tree == st < N /\ \E u \in 1..st : E' = E \cup {{u, st + 1}} /\ st' = st + 1 /\ Keep
Plan == st = N /\ Cardinality(E) < PTarget /\ \E p \in All \ E : Planar(E \cup {p}) /\ E' = E \cup {p} /\ UNCHANGED st /\ Keep
Fill == st = N /\ Cardinality(E) >= PTarget /\ Cardinality(E) < Target(N, gcap, req)
        /\ \E p \in All \ E : E' = E \cup {p} /\ UNCHANGED st /\ Keep
Done == st = N /\ Cardinality(E) >= Target(N, gcap, req) /\ st' = N + 1 /\ UNCHANGED E /\ Keep
MSpec == MInit /\ [][Tree \/ Plan \/ Fill \/ Done]_mv
\* never stuck below the target
Progress == (st = N /\ Cardinality(E) < PTarget) => \E p \in All \ E : Planar(E \cup {p})
\* the outcome is one GGen allows (planarity by brute force here, by rotations there)
Outcome == st = N + 1 =>
    /\ IsSimpleAdj(AdjOf(E)) /\ ConnectedIn(NbrsOf(AdjOf(E)), V)
    /\ Target(N, gcap, req) >= N - 1 => Cardinality(E) = Target(N, gcap, req)
    /\ Cardinality(E) <= PlanarLimit(N) => Planar(E)
    /\ Promised(N, gcap, "rand", 0, AdjOf(E), Cardinality(E), <<>>)
\* the planar limit is attained exactly by the maximal planar graphs
Maximal == (Planar(E) /\ st >= N) => (Cardinality(E) = PlanarLimit(N) <=> \A p \in All \ E : ~Planar(E \cup {p}))
=============================================================================
