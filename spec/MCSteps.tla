------------------------------ MODULE MCSteps ------------------------------
(* Edge addition on all small graphs, with every choice the algorithm leaves *)
(* open.  Checked: every partial embedding is safe; an embedding that is     *)
(* finished, with the components joined, is a planar embedding of the graph; *)
(* and with the preferences of the algorithm no choice ever gets a planar    *)
(* graph stuck.  Prefer = FALSE lets the machine choose badly: it is still   *)
(* always safe.                                                              *)
EXTENDS Steps
CONSTANTS N, Prefer, MinEdges
Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
\* the graphs for which 1..N is a depth-first numbering: every parent function and set of back edges
Pars == {p \in [1..N -> 0..(N - 1)] : p[1] = 0 /\ \A x \in 1..N : p[x] < x}
\* preorder: the parent of x+1 is an ancestor of x (or none)
PreOrder(p) == \A x \in 1..(N - 1) : p[x + 1] = 0 \/ p[x + 1] \in Up(p, x)
Backs(p) == LET an == Ancs(p) IN {e \in Pairs : e[1] \in an[e[2]] /\ p[e[2]] # e[1]}
Choices == UNION {{<<p, b>> : b \in SUBSET Backs(p)} : p \in {q \in Pars : PreOrder(q)}}
AllEdges == TreeArcs(spar) \cup sback

MInit == \E g \in {x \in Choices : Cardinality(x[2]) + Cardinality(TreeArcs(x[1])) >= MinEdges} :
    /\ sph = "running" /\ sn = N /\ ses = <<>> /\ salg = "p"
    /\ spar = g[1] /\ sback = g[2] /\ semb = {} /\ sv = N
    /\ srot = [x \in 1..(2 * N) |-> IF x <= N THEN (IF g[1][x] = 0 THEN <<>> ELSE <<N + x>>)
                                    ELSE IF g[1][x - N] = 0 THEN <<>> ELSE <<x - N>>]
Flips(k) == [1..k -> BOOLEAN]
CanAdd(d, fl) == Allowed(spar, sback, semb, srot, sv, d, fl) /\ (Prefer => Preferred(spar, sback, semb, srot, sv, d, fl))
Todo == {e \in sback \ semb : e[1] = sv}
Width(d) == Len(HeadsBetween(spar, Heads(spar, semb), sv, d))
Add == \E e \in Todo : \E fl \in Flips(Width(e[2])) :
          /\ CanAdd(e[2], fl) = TRUE
          /\ srot' = EmbedBack(spar, Heads(spar, semb), srot, sv, e[2], fl)
          /\ semb' = semb \cup {e}
          /\ UNCHANGED <<sph, sn, ses, spar, sback, sv, salg>>
NextVertex == /\ sv >= 1 /\ Todo = {}
              /\ sv' = sv - 1
              /\ UNCHANGED <<sph, sn, ses, spar, sback, semb, srot, salg>>
MSpec == MInit /\ [][Add \/ NextVertex]_svars
Safe == SafeStep(spar, sback, semb, srot, FALSE)
\* all components joined to the vertices they are copies of
RECURSIVE JoinAll(_, _)
JoinAll(rot, c) == IF c = 0 THEN [x \in 1..N |-> rot[x]]
    ELSE IF rot[N + c] = <<>> THEN JoinAll(rot, c - 1)
    ELSE JoinAll(Splice(N, rot, <<1, c>>, <<spar[c], c>>, 2), c - 1)
Finished == sv = 0 =>
    LET r == JoinAll(srot, N) IN
    /\ ArcsOfAdj(r) = AllEdges \cup {<<e[2], e[1]>> : e \in AllEdges}
    /\ PlanarRotation(r)
\* graphs of at most six vertices: K5 (one edge may lead through the sixth vertex) or K3,3
Adj(a, b) == <<a, b>> \in AllEdges \/ <<b, a>> \in AllEdges
HasK5Here(S) == \/ \A a \in S, b \in S : a # b => Adj(a, b)
                \/ \E w \in (1..N) \ S : \E a \in S, b \in S :
                     a # b /\ Adj(a, w) /\ Adj(w, b) /\ \A x \in S, y \in S : (x # y /\ {x, y} # {a, b}) => Adj(x, y)
NonPlanar == \/ \E S \in SUBSET (1..N) : Cardinality(S) = 5 /\ HasK5Here(S)
             \/ \E S \in SUBSET (1..N) : Cardinality(S) = 3 /\ \E T \in SUBSET ((1..N) \ S) : Cardinality(T) = 3 /\ \A a \in S, b \in T : Adj(a, b)
Stuck == sv >= 1 /\ Todo # {} /\ \A e \in Todo : \A fl \in Flips(Width(e[2])) : ~CanAdd(e[2], fl)
NeverStuck == (Prefer /\ Stuck) => NonPlanar
Right == sv = 0 => ~NonPlanar
=============================================================================
