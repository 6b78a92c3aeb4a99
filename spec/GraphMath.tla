------------------------------ MODULE GraphMath ------------------------------
(* Mathematics of simple undirected graphs used by every machine in this      *)
(* directory: rotation systems, faces, subdivisions of small graphs, and      *)
(* independent decision procedures for "contains a subdivision of H".         *)
(* Vertices are 1..n.  A rotation system is a tuple rot of length n whose     *)
(* v-th component is the cyclic sequence of neighbours of v.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a < b THEN b ELSE a
IsInj(s) == Cardinality(Rng(s)) = Len(s)

\* Both orientations of every edge in a sequence of pairs
ArcsOf(es) == {<<es[i][1], es[i][2]>> : i \in 1..Len(es)}
              \cup {<<es[i][2], es[i][1]>> : i \in 1..Len(es)}
\* The arcs of an adjacency structure
ArcsOfAdj(adj) == UNION {{<<v, adj[v][i]>> : i \in 1..Len(adj[v])} : v \in 1..Len(adj)}

NbrsOf(adj) == TLCEval([v \in 1..Len(adj) |-> Rng(adj[v])])
NbrsOfArcs(n, arcs) == TLCEval([v \in 1..n |-> {a[2] : a \in {b \in arcs : b[1] = v}}])
NbrsOfEs(n, es) == TLCEval([v \in 1..n |->
      {es[i][2] : i \in {j \in 1..Len(es) : es[j][1] = v}}
        \cup {es[i][1] : i \in {j \in 1..Len(es) : es[j][2] = v}}])

\* adj is the adjacency structure of a simple graph (symmetric, no loops or multi-edges)
IsSimpleAdj(adj) ==
    LET nb == NbrsOf(adj) IN
    \A v \in 1..Len(adj) :
        /\ Cardinality(nb[v]) = Len(adj[v])
        /\ v \notin nb[v]
        /\ \A w \in nb[v] : w \in 1..Len(adj) /\ v \in nb[w]

SimpleEs(n, es) ==
    /\ \A i \in 1..Len(es) : es[i][1] \in 1..n /\ es[i][2] \in 1..n /\ es[i][1] # es[i][2]
    /\ Cardinality(ArcsOf(es)) = 2 * Len(es)

(***************************** connectivity ********************************)
RECURSIVE Grow(_, _, _)
\* closure of seen by nb restricted to vertices in dom
Grow(nb, dom, st) ==
    IF st[2] = {} THEN st[1]
    ELSE LET f == (UNION {nb[v] : v \in st[2]} \cap dom) \ st[1]
         IN Grow(nb, dom, <<st[1] \cup f, f>>)
ReachIn(nb, dom, v) == Grow(nb, dom, <<{v}, {v}>>)

RECURSIVE CompsAcc(_, _, _)
CompsAcc(nb, rem, acc) ==
    IF rem = {} THEN acc
    ELSE LET v == CHOOSE x \in rem : TRUE
             c == ReachIn(nb, rem, v)
         IN CompsAcc(nb, rem \ c, acc \cup {c})
Components(nb, dom) == CompsAcc(nb, dom, {})
ConnectedIn(nb, dom) == dom = {} \/ ReachIn(nb, dom, CHOOSE x \in dom : TRUE) = dom

(************************** faces and planarity ****************************)
RECURSIVE OffAcc(_, _, _)
OffAcc(rot, v, acc) == IF v > Len(rot) THEN acc
                       ELSE OffAcc(rot, v + 1, Append(acc, acc[v] + Len(rot[v])))
\* off[v] + i is the number of the i-th arc out of v;  off[n+1] = number of arcs
Offsets(rot) == OffAcc(rot, 1, <<0>>)

RECURSIVE Jump(_, _, _)
Jump(lab, nx, r) ==
    IF r = 0 THEN lab
    ELSE Jump(TLCEval([a \in DOMAIN lab |-> MinOf(lab[a], lab[nx[a]])]),
              TLCEval([a \in DOMAIN nx |-> nx[nx[a]]]), r - 1)
RECURSIVE Log2Up(_, _)
Log2Up(k, p) == IF p >= k THEN 0 ELSE 1 + Log2Up(k, 2 * p)
\* label of every element of a permutation: the least element of its orbit
OrbitLabels(nx) == LET k == Len(nx) IN
    IF k = 0 THEN <<>> ELSE Jump([a \in 1..k |-> a], nx, Log2Up(k, 1))

\* The permutation "next arc along the face" on arc numbers
FaceNext(rot) ==
    LET n == Len(rot)
        off == TLCEval(Offsets(rot))
        pos == TLCEval([w \in 1..n |->
                 [u \in Rng(rot[w]) |-> CHOOSE i \in 1..Len(rot[w]) : rot[w][i] = u]])
        k == off[n + 1]
        tail == TLCEval([a \in 1..k |-> CHOOSE v \in 1..n : off[v] < a /\ a <= off[v + 1]])
    IN TLCEval([a \in 1..k |->
          LET v == tail[a]
              w == rot[v][a - off[v]]
              p == pos[w][v]
          IN off[w] + (IF p = Len(rot[w]) THEN 1 ELSE p + 1)])

FaceCount(rot) == LET lab == OrbitLabels(FaceNext(rot))
                  IN Cardinality({a \in DOMAIN lab : lab[a] = a})

\* Euler: a rotation system of a simple graph is planar iff every component has genus 0.
\* Genus is never negative, so it is enough to sum over all components.
PlanarRotation(rot) ==
    LET n == Len(rot)
        nb == NbrsOf(rot)
        comps == Components(nb, 1..n)
        iso == {v \in 1..n : Len(rot[v]) = 0}
        e2 == Offsets(rot)[n + 1]
    IN 2 * n - e2 + 2 * FaceCount(rot)
         = 4 * (Cardinality(comps) - Cardinality(iso)) + 2 * Cardinality(iso)

\* Every component has a face containing all of its vertices
OuterFaceRotation(rot) ==
    LET n == Len(rot)
        nb == NbrsOf(rot)
        off == TLCEval(Offsets(rot))
        lab == TLCEval(OrbitLabels(FaceNext(rot)))
        faces == {a \in DOMAIN lab : lab[a] = a}
        onf == TLCEval([v \in 1..n |-> {lab[off[v] + i] : i \in 1..Len(rot[v])}])
    IN \A c \in Components(nb, {v \in 1..n : Len(rot[v]) > 0}) :
          \E f \in faces : \A v \in c : f \in onf[v]

(**************************** subdivisions *********************************)
RECURSIVE PathEnd(_, _, _, _)
PathEnd(nb, branch, prev, cur) ==
    IF cur \in branch THEN cur
    ELSE PathEnd(nb, branch, cur, CHOOSE x \in nb[cur] : x # prev)

\* nb describes a subdivision of the 3-connected graph (or K2,3) named h, plus isolated vertices
IsSubdivision(nb, h) ==
    LET V == DOMAIN nb
        used == {v \in V : nb[v] # {}}
        branch == {v \in V : Cardinality(nb[v]) >= 3}
        ends == TLCEval([b \in branch |-> {PathEnd(nb, branch, b, w) : w \in nb[b]}])
        degs(d) == \A b \in branch : Cardinality(nb[b]) = d
    IN /\ used # {} /\ branch # {}
       /\ \A v \in used : Cardinality(nb[v]) >= 2
       /\ ConnectedIn(nb, used)
       /\ CASE h = "K5" -> /\ Cardinality(branch) = 5 /\ degs(4)
                           /\ \A b \in branch : ends[b] = branch \ {b}
            [] h = "K4" -> /\ Cardinality(branch) = 4 /\ degs(3)
                           /\ \A b \in branch : ends[b] = branch \ {b}
            [] h = "K33" -> /\ Cardinality(branch) = 6 /\ degs(3)
                            /\ LET A == ends[CHOOSE b \in branch : TRUE]
                               IN /\ Cardinality(A) = 3
                                  /\ \A b \in branch : ends[b] = IF b \in A THEN branch \ A ELSE A
            [] h = "K23" -> /\ Cardinality(branch) = 2 /\ degs(3)
                            /\ \A b \in branch : ends[b] = branch \ {b} /\ nb[b] \cap branch = {}
            [] OTHER -> FALSE

(************* independent decision procedures for containment *************)
\* K4: a graph has no K4 subdivision iff it reduces to nothing by deleting vertices
\* of degree at most 2 and joining the two neighbours of a deleted degree-2 vertex.
RECURSIVE SPReduce(_, _)
SPReduce(nb, rem) ==
    LET cand == {v \in rem : Cardinality(nb[v]) <= 2} IN
    IF rem = {} THEN TRUE
    ELSE IF cand = {} THEN FALSE
    ELSE LET v == CHOOSE x \in cand : TRUE
             ns == nb[v]
         IN SPReduce(TLCEval([u \in rem \ {v} |->
                        IF u \in ns THEN (nb[u] \cup ns) \ {v, u} ELSE nb[u]]), rem \ {v})
HasK4(nb) == ~SPReduce(nb, DOMAIN nb)

\* Definitional form (Menger): three internally disjoint u-w paths of length >= 2
SepBy(nb, u, w, S) == LET nb2 == [nb EXCEPT ![u] = @ \ {w}, ![w] = @ \ {u}]
                      IN w \notin ReachIn(nb2, DOMAIN nb \ S, u)
HasK23Def(nb) ==
    \E u, w \in DOMAIN nb :
        /\ u < w
        /\ Cardinality(nb[u] \ {w}) >= 3 /\ Cardinality(nb[w] \ {u}) >= 3
        /\ \A x, y \in DOMAIN nb \ {u, w} : x <= y => ~SepBy(nb, u, w, {x, y})
        /\ ~SepBy(nb, u, w, {})

\* Reduction form of "no K2,3": leaf blocks are stripped.  load[{a,b}] counts the ears that
\* were folded onto the edge ab; K4 blocks may only be removed when they are unloaded.
RECURSIVE K23Reduce(_, _, _)
K23Reduce(nb, rem, load) ==
    LET Ld(a, b) == IF {a, b} \in DOMAIN load THEN load[{a, b}] ELSE 0
        SetLd(a, b, k) == [p \in DOMAIN load \cup {{a, b}} |-> IF p = {a, b} THEN k ELSE load[p]]
        small == {v \in rem : Cardinality(nb[v]) <= 1}
        ears == {v \in rem : Cardinality(nb[v]) = 2}
    IN IF rem = {} THEN TRUE
       ELSE IF small # {} THEN
            K23Reduce(TLCEval([u \in rem \ small |-> nb[u] \ small]), rem \ small, load)
       ELSE IF ears # {} THEN
            LET v == CHOOSE x \in ears : TRUE
                a == CHOOSE x \in nb[v] : TRUE
                b == CHOOSE x \in nb[v] : x # a
                k == Ld(a, b) + 1
                nb2 == TLCEval([u \in rem \ {v} |-> IF u = a THEN (nb[a] \cup {b}) \ {v}
                                                  ELSE IF u = b THEN (nb[b] \cup {a}) \ {v}
                                                  ELSE nb[u]])
            IN IF k >= 2 /\ ~SepBy(nb2, a, b, {}) THEN FALSE
               ELSE K23Reduce(nb2, rem \ {v}, TLCEval(SetLd(a, b, MinOf(k, 2))))
       ELSE LET blk == {v \in rem : /\ Cardinality(nb[v]) = 3
                                    /\ \E Q \in {nb[v] \cup {v}} :
                                         /\ \A x \in Q : Q \subseteq nb[x] \cup {x}
                                         /\ \A x, y \in Q : x # y => Ld(x, y) = 0
                                         /\ Cardinality({x \in Q : Cardinality(nb[x]) = 3}) >= 3}
            IN IF blk = {} THEN FALSE
               ELSE LET v == CHOOSE x \in blk : TRUE
                        Q == nb[v] \cup {v}
                        keep == {x \in Q : Cardinality(nb[x]) > 3}
                        gone == Q \ keep
                    IN K23Reduce(TLCEval([u \in rem \ gone |-> nb[u] \ gone]), rem \ gone, load)
HasK23(nb) == ~K23Reduce(nb, DOMAIN nb, <<>>)

\* Outerplanar iff neither K4 nor K2,3 (Chartrand-Harary)
IsOuterplanar(nb) == ~HasK4(nb) /\ ~HasK23(nb)

(* K3,3: checked through a decomposition certificate.  A certificate is a    *)
(* tuple of nodes; node = [v: vertex tuple, k: kind, ...].                    *)
(*   kind "split": s = separating tuple (at most 2 vertices), l, r = children *)
(*   kind "small": at most five vertices                                      *)
(*   kind "planar": rot = rotation over positions in v                        *)
(* Node i stands for the graph on Rng(v) with edge set e (pairs of vertices). *)
PairSet(es) == {{es[i][1], es[i][2]} : i \in 1..Len(es)}
CertNodeOK(cert, i) ==
    LET nd == cert[i]
        V == Rng(nd.v)
        E == PairSet(nd.e)
    IN /\ IsInj(nd.v)
       /\ \A p \in E : p \subseteq V /\ Cardinality(p) = 2
       /\ CASE nd.k = "small" -> Len(nd.v) <= 5
            [] nd.k = "planar" ->
                  /\ Len(nd.rot) = Len(nd.v)
                  /\ IsSimpleAdj(nd.rot)
                  /\ {{nd.v[a[1]], nd.v[a[2]]} : a \in ArcsOfAdj(nd.rot)} = E
                  /\ PlanarRotation(nd.rot)
            [] nd.k = "split" ->
                  LET L == cert[nd.l]
                      R == cert[nd.r]
                      S == Rng(nd.s)
                      virt == IF Cardinality(S) = 2 THEN {S} ELSE {}
                  IN /\ nd.l > i /\ nd.r > i
                     /\ Cardinality(S) <= 2
                     /\ Rng(L.v) \cup Rng(R.v) = V /\ Rng(L.v) \cap Rng(R.v) = S
                     /\ virt \subseteq PairSet(L.e) /\ virt \subseteq PairSet(R.e)
                     /\ E \subseteq PairSet(L.e) \cup PairSet(R.e)
            [] OTHER -> FALSE
\* cert proves that the graph with arcs `arcs` on 1..n has no K3,3 subdivision
K33FreeCert(n, es, cert) ==
    /\ Len(cert) > 0
    /\ Rng(cert[1].v) = 1..n
    /\ PairSet(cert[1].e) = PairSet(es)
    /\ \A i \in 1..Len(cert) : CertNodeOK(cert, i)

(********************* visibility representations **************************)
\* vis.v[v] = <<pos, start, end>>, vis.e = seq of <<u, w, pos, start, end>>
VisibilityOK(n, es, vis) ==
    LET m == Len(es)
        vv == vis.v
        ee == vis.e
    IN /\ Len(vv) = n /\ Len(ee) = m
       /\ {{ee[i][1], ee[i][2]} : i \in 1..m} = PairSet(es)
       /\ {vv[v][1] : v \in 1..n} = 0..(n - 1)
       /\ {ee[i][3] : i \in 1..m} = 0..(m - 1)
       /\ \A v \in 1..n : /\ 0 <= vv[v][2] /\ vv[v][2] <= vv[v][3]
                          /\ vv[v][3] <= MaxOf(m - 1, 0)
       /\ \A i \in 1..m :
            LET u == ee[i][1] w == ee[i][2] p == ee[i][3] s == ee[i][4] t == ee[i][5] IN
            /\ s = MinOf(vv[u][1], vv[w][1]) /\ t = MaxOf(vv[u][1], vv[w][1])
            /\ vv[u][2] <= p /\ p <= vv[u][3]
            /\ vv[w][2] <= p /\ p <= vv[w][3]
            /\ \A x \in (1..n) \ {u, w} :
                 ~(s <= vv[x][1] /\ vv[x][1] <= t /\ vv[x][2] <= p /\ p <= vv[x][3])
=============================================================================
