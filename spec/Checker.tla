------------------------------ MODULE Checker ------------------------------
(* The result checker: an object claimed to be the outcome of an algorithm is *)
(* shown together with the original graph.  The machine owns both objects;    *)
(* the environment may corrupt either between checks.  The checker has to     *)
(* say what the definition says, and may not change anything.                 *)
EXTENDS EmbedMachine
VARIABLES on, oes,     \* the reference object: order and edges
          ta,          \* the object shown: adjacency lists in original labels
          tal,         \* the algorithm that was run on it
          clean        \* nothing was corrupted so far
ckVars == <<phase, gn, ges, adj, num, alg, ret, on, oes, ta, tal, clean>>
keepE == UNCHANGED <<phase, gn, ges, adj, num, alg, ret>>

\* Lists with repeated neighbours are no simple graph, so none of the predicates below accepts them.
SameAsRef == Len(ta) = on /\ SameGraphAs(ta, on, oes)
\* the face that starts with the first arc of each start vertex reaches the whole component
FirstFaceOuter(a, starts) ==
    LET off == TLCEval(Offsets(a))
        lab == TLCEval(OrbitLabels(FaceNext(a)))
        nb == NbrsOf(a)
    IN \A s \in starts : Len(a[s]) > 0 =>
          \A v \in ReachIn(nb, 1..Len(a), s) : \E i \in 1..Len(a[v]) : lab[off[v] + i] = lab[off[s] + 1]
\* starts: the vertices components are entered at.  Only an object that still enters every
\* component once can be the outcome of an algorithm.
OneStartEach(starts) == \A c \in Components(NbrsOf(ta), 1..Len(ta)) : Cardinality(c \cap starts) = 1
Verdicts(claim, starts) ==
    CASE claim = OK /\ tal = "p" -> IF ~(SameAsRef /\ PlanarRotation(ta)) THEN {0}
            ELSE IF OneStartEach(starts) THEN {OK} ELSE {OK, 0}
      [] claim = OK /\ tal = "o" ->
            IF ~(SameAsRef /\ PlanarRotation(ta) /\ OuterFaceRotation(ta)) THEN {0}
            ELSE IF OneStartEach(starts) /\ FirstFaceOuter(ta, starts) THEN {OK} ELSE {OK, 0}
      [] claim = OK /\ tal = "d" -> IF ~(SameAsRef /\ PlanarRotation(ta)) THEN {0} ELSE IF clean THEN {OK} ELSE {OK, 0}
      [] claim = NONEMB /\ tal \in {"p", "o", "2", "3", "4"} ->
            IF Len(ta) = on /\ IsSimpleAdj(ta) /\ GoodObstruction(tal, ta, on, oes) THEN {NONEMB} ELSE {0}
      [] claim = 0 -> {0}
      [] OTHER -> {OK, NONEMB, 0}

CkInit == EmInit /\ on = 0 /\ oes = <<>> /\ ta = <<>> /\ tal = "" /\ clean = TRUE
CkBegin(n, es, al, a) == /\ tal = "" /\ (SimpleEs(n, es)) = TRUE /\ Len(a) = n
                         /\ on' = n /\ oes' = es /\ ta' = a /\ tal' = al /\ clean' = TRUE /\ keepE
CkCorrupt(a) == tal # "" /\ Len(a) = Len(ta) /\ ta' = a /\ clean' = FALSE /\ UNCHANGED <<on, oes, tal>> /\ keepE
CkRef(n, es) == tal # "" /\ (SimpleEs(n, es)) = TRUE /\ on' = n /\ oes' = es /\ clean' = FALSE /\ UNCHANGED <<ta, tal>> /\ keepE
CkCheck(claim, starts, r, a, es) ==
    /\ tal # ""
    /\ (r \in Verdicts(claim, starts)) = TRUE
    /\ a = ta /\ PairSet(es) = PairSet(oes) /\ UNCHANGED ckVars
CkEnd == tal # "" /\ on' = 0 /\ oes' = <<>> /\ ta' = <<>> /\ tal' = "" /\ clean' = TRUE /\ keepE
=============================================================================
