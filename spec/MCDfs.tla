------------------------------- MODULE MCDfs -------------------------------
(* Explores the depth-first search itself, step by step, on every graph with *)
(* N vertices, and checks that its outcome is what Dfs.tla takes it to be:   *)
(* every complete search satisfies GoodForest, every tuple that satisfies    *)
(* GoodForest is the outcome of a search (both sides counted), tree paths    *)
(* join every non-tree edge, and lowpoints follow the recursive definition.  *)
EXTENDS Dfs
CONSTANT N
VARIABLES st, dn, pr, nx     \* search stack, numbers, parents, next number
mvars == <<dvars, st, dn, pr, nx>>

Pairs == {<<u, v>> \in (1..N) \X (1..N) : u < v}
AdjOf(E) == LET RECURSIVE sq(_)
                sq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o sq(S \ {x})
            IN [v \in 1..N |-> sq({w \in 1..N : <<v, w>> \in E \/ <<w, v>> \in E})]
MInit == /\ \E E \in SUBSET Pairs : ga = AdjOf(E)
         /\ ph = "live" /\ numd = FALSE /\ srt = FALSE /\ par = <<>> /\ ix = <<>> /\ ty = <<>>
         /\ st = <<>> /\ dn = [v \in 1..N |-> 0] /\ pr = [v \in 1..N |-> 0] /\ nx = 1
Todo == {v \in 1..N : dn[v] = 0}
Visit(v, p) == st' = Append(st, v) /\ dn' = [dn EXCEPT ![v] = nx] /\ pr' = [pr EXCEPT ![v] = p] /\ nx' = nx + 1
Search == /\ ~numd /\ UNCHANGED <<ph, ga, srt>>
          /\ IF Todo = {} THEN /\ numd' = TRUE /\ par' = pr /\ ix' = dn
                               /\ ty' = [v \in 1..N |-> [i \in 1..Len(ga[v]) |-> TypeBy(pr, dn, v, ga[v][i])]]
                               /\ UNCHANGED <<st, dn, pr, nx>>
             ELSE /\ UNCHANGED <<numd, par, ix, ty>>
                  /\ IF st = <<>> THEN \E v \in Todo : Visit(v, 0)
                     ELSE LET t == st[Len(st)] c == Rng(ga[t]) \cap Todo IN
                          IF c = {} THEN st' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED <<dn, pr, nx>>
                          ELSE \E v \in c : Visit(v, t)
Switch == /\ numd /\ LET o == Other(ga, par, ix, ty) IN ga' = o[1] /\ par' = o[2] /\ ix' = o[3] /\ ty' = o[4]
          /\ srt' = ~srt /\ UNCHANGED <<ph, numd, st, dn, pr, nx>>
MSpec == MInit /\ [][Search \/ Switch]_mvars

Dn == IF srt THEN [v \in 1..N |-> v] ELSE ix
Forest == numd => GoodForest(ga, Dn, par, ty)
\* every edge joins an ancestor and a descendant
AncDesc == numd => \A v \in 1..N : \A w \in Rng(ga[v]) : v \in Desc(par, N, w) \/ w \in Desc(par, N, v)
\* two switches give the same object
Twice == numd => LET o == Other(ga, par, ix, ty) IN Other(o[1], o[2], o[3], o[4]) = <<ga, par, ix, ty>>
RECURSIVE LowRec(_, _)
LowRec(v, k) == IF k = 0 THEN v ELSE
                LET la == LeastAnc(ga, ty, v)
                    ch == {LowRec(ga[v][i], k - 1) : i \in {j \in 1..Len(ga[v]) : ty[v][j] = CHILD}}
                IN MinIn({la} \cup ch)
LowAgrees == (numd /\ srt) => \A v \in 1..N : LowAll(ga, par, ty)[v] = LowRec(v, N)
Follow(d, p) ==   \* d can be followed: each next vertex hangs at the deepest open vertex of its path
    LET iv == [q \in 1..N |-> CHOOSE v \in 1..N : d[v] = q]
        open(v, q) == \E w \in Rng(ga[v]) : d[w] >= q
    IN \A q \in 2..N : LET v == iv[q] IN
         IF p[v] = 0 THEN \A u \in 1..N : d[u] < q => ~open(u, q)
         ELSE p[v] = iv[MaxOr0({d[u] : u \in {x \in 1..N : d[x] < q /\ open(x, q)}})]

\* completeness: a permutation accepted as depth-first numbering is reached by following it
Complete == (~numd /\ nx = 1 /\ st = <<>>) =>
    \A d \in {f \in [1..N -> 1..N] : Cardinality({f[x] : x \in 1..N}) = N} :
       LET p == [v \in 1..N |-> ParentBy(ga, d, v)]
           t == [v \in 1..N |-> [i \in 1..Len(ga[v]) |-> TypeBy(p, d, v, ga[v][i])]]
       IN GoodForest(ga, d, p, t) = Follow(d, p)
=============================================================================
