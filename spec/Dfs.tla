-------------------------------- MODULE Dfs --------------------------------
(* The depth-first utilities as a machine on one graph object.               *)
(*                                                                           *)
(* The object keeps, per vertex position, a parent, an index (the number the *)
(* position has in the other numbering) and, once computed, least ancestor   *)
(* and lowpoint; per arc, a type.  dfs numbers, sort switches between the    *)
(* original and the depth-first numbering, least and low compute ancestor    *)
(* values and leave the object in depth-first order.  Which depth-first      *)
(* forest is taken is not determined.                                        *)
EXTENDS GraphMath

VARIABLES ph,      \* "none" | "live"
          ga,      \* adjacency lists in the current numbering
          numd,    \* depth-first numbers have been assigned
          srt,     \* positions are depth-first numbers
          par, ix, ty
dvars == <<ph, ga, numd, srt, par, ix, ty>>

DOK == 1
CHILD == "child" PARENT == "parent" FORWARD == "forward" BACK == "back"

Perm(s, n) == Len(s) = n /\ Rng(s) = 1..n
Inv(s) == TLCEval([q \in 1..Len(s) |-> CHOOSE p \in 1..Len(s) : s[p] = q])
\* tuple indexed by position, reordered to the other numbering
Move(t, s) == LET v == Inv(s) IN TLCEval([q \in 1..Len(t) |-> t[v[q]]])
MapAdj(a, s) == Move([v \in 1..Len(a) |-> [i \in 1..Len(a[v]) |-> s[a[v][i]]]], s)
MapPar(p, s) == Move([v \in 1..Len(p) |-> IF p[v] = 0 THEN 0 ELSE s[p[v]]], s)

RECURSIVE Run(_, _, _, _)
Run(nb, n, path, next) ==
    IF next > n THEN TRUE
    ELSE IF path = <<>> THEN Run(nb, n, <<next>>, next + 1)
    ELSE LET t == path[Len(path)] IN
         IF next \in nb[t] THEN Run(nb, n, Append(path, next), next + 1)
         ELSE IF \E w \in nb[t] : w > next THEN FALSE
         ELSE Run(nb, n, SubSeq(path, 1, Len(path) - 1), next)

\* what a depth-first forest is, in terms of the discovery numbers d[v] of the positions
MaxOr0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MinIn(S) == CHOOSE x \in S : \A y \in S : x <= y
\* parent of position v: the neighbour with the largest smaller number
ParentBy(a, d, v) == LET S == {w \in Rng(a[v]) : d[w] < d[v]}
                     IN IF S = {} THEN 0 ELSE CHOOSE w \in S : \A x \in S : d[x] <= d[w]
TypeBy(p, d, v, w) == IF p[w] = v THEN CHILD ELSE IF p[v] = w THEN PARENT ELSE IF d[v] < d[w] THEN FORWARD ELSE BACK
GoodForest(a, d, p, t) ==
    LET n == Len(a)
        iv == Inv(d)
        nb == TLCEval([q \in 1..n |-> {d[w] : w \in Rng(a[iv[q]])}])
    IN /\ Run(nb, n, <<>>, 1)
       /\ \A v \in 1..n : p[v] = ParentBy(a, d, v)
       /\ \A v \in 1..n : Len(t[v]) = Len(a[v]) /\ \A i \in 1..Len(a[v]) : t[v][i] = TypeBy(p, d, v, a[v][i])
\* lists may be permuted by the numbering, their contents may not change
SameContent(a, b) == Len(a) = Len(b) /\ \A v \in 1..Len(a) : Len(a[v]) = Len(b[v]) /\ Rng(a[v]) = Rng(b[v])

\* definitions of the ancestor values over a sorted object
Desc(p, n, v) == LET RECURSIVE up(_, _)
                     up(x, k) == x = v \/ (k > 0 /\ x # 0 /\ up(p[x], k - 1))
                 IN {w \in 1..n : up(w, n)}
LeastAnc(a, t, v) == MinIn({v} \cup {a[v][i] : i \in {j \in 1..Len(a[v]) : t[v][j] = BACK}})
LeastAll(a, t) == TLCEval([v \in 1..Len(a) |-> LeastAnc(a, t, v)])
LowAll(a, p, t) == LET la == LeastAll(a, t) IN TLCEval([v \in 1..Len(a) |-> MinIn({la[w] : w \in Desc(p, Len(a), v)})])

DInit == ph = "none" /\ ga = <<>> /\ numd = FALSE /\ srt = FALSE /\ par = <<>> /\ ix = <<>> /\ ty = <<>>
DBegin(a) == /\ ph = "none" /\ IsSimpleAdj(a) = TRUE
             /\ ph' = "live" /\ ga' = a /\ numd' = FALSE /\ srt' = FALSE /\ par' = <<>> /\ ix' = <<>> /\ ty' = <<>>
\* the object after numbering it (if it was not)
Numbering(a, p, d, t) == IF numd THEN a = ga /\ p = par /\ d = ix /\ t = ty
                         ELSE SameContent(a, ga) /\ Perm(d, Len(ga)) /\ GoodForest(a, d, p, t)
DDfs(a, p, d, t) == /\ ph = "live" /\ Numbering(a, p, d, t) = TRUE
                    /\ ga' = a /\ par' = p /\ ix' = d /\ ty' = t /\ numd' = TRUE
                    /\ UNCHANGED <<ph, srt>>
\* the current numbered object <<a, p, d, t>> seen in the other numbering
Other(a, p, d, t) == <<MapAdj(a, d), MapPar(p, d), Inv(d), Move(t, d)>>
\* <<a, p, d, t>> is the result of numbering if needed and then sorting
Sorted(a, p, d, t) == Perm(d, Len(ga)) /\ LET o == Other(a, p, d, t) IN Numbering(o[1], o[2], o[3], o[4])
DSort(a, p, d, t) == /\ ph = "live" /\ Sorted(a, p, d, t) = TRUE
                     /\ ga' = a /\ par' = p /\ ix' = d /\ ty' = t /\ numd' = TRUE /\ srt' = ~srt
                     /\ UNCHANGED ph
\* least and low leave the object in depth-first order
Prepared(a, p, d, t) == IF srt THEN a = ga /\ p = par /\ d = ix /\ t = ty ELSE Sorted(a, p, d, t)
DLeast(a, p, d, t, la) ==
    /\ ph = "live" /\ Prepared(a, p, d, t) = TRUE
    /\ la = LeastAll(a, t)
    /\ ga' = a /\ par' = p /\ ix' = d /\ ty' = t /\ numd' = TRUE /\ srt' = TRUE /\ UNCHANGED ph
DLow(a, p, d, t, la, lp) == DLeast(a, p, d, t, la) /\ lp = LowAll(a, p, t)
DReinit == /\ ph = "live" /\ ga' = [v \in 1..Len(ga) |-> <<>>] /\ numd' = FALSE /\ srt' = FALSE /\ par' = <<>> /\ ix' = <<>> /\ ty' = <<>>
           /\ UNCHANGED ph
DEnd == ph = "live" /\ ph' = "none" /\ ga' = <<>> /\ numd' = FALSE /\ srt' = FALSE /\ par' = <<>> /\ ix' = <<>> /\ ty' = <<>>
=============================================================================
