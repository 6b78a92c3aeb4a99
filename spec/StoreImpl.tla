------------------------------ MODULE StoreImpl ------------------------------
(* How the library realises Store: edge records in pairs (twin = xor 1), doubly *)
(* linked lists threaded through them, a stack of holes and one integer stack   *)
(* for hide/contract/identify records.  im = [n, cap, V, E, M, holes, stk]      *)
(* V[v] = <<first, last>>, E[e] = [l |-> <<next, prev>>, nb, dir].              *)
EXTENDS Store
First == 2
Twin(e) == IF e % 2 = 0 THEN e + 1 ELSE e - 1
Blank == [l |-> <<0, 0>>, nb |-> 0, dir |-> 0]
ImFresh(n, cap) == [n |-> n, cap |-> cap, V |-> [v \in 1..n |-> <<0, 0>>], E |-> [e \in First..(First + cap - 1) |-> Blank],
                    M |-> 0, holes |-> <<>>, stk |-> <<>>]
InUse(im) == First + 2 * (im.M + Len(im.holes))
Nx(im, e) == im.E[e].l[1]
Pv(im, e) == im.E[e].l[2]
SetL(im, e, k, x) == [im EXCEPT !.E[e].l[k] = x]
SetV(im, v, k, x) == [im EXCEPT !.V[v][k] = x]
\* the record before/after which there is nothing is known to the vertex
SetNextOf(im, v, e, x) == IF e = NIL THEN SetV(im, v, 1, x) ELSE SetL(im, e, 1, x)
SetPrevOf(im, v, e, x) == IF e = NIL THEN SetV(im, v, 2, x) ELSE SetL(im, e, 2, x)

\* put arc a into v's list between p and q (neighbours in the list, NIL at the ends)
Between(im, v, p, q, a) ==
    SetPrevOf(SetNextOf([im EXCEPT !.E[a].l = <<q, p>>], v, p, a), v, q, a)
AttachAt(im, v, e, link, a) ==
    IF e # NIL THEN IF link = 0 THEN Between(im, v, e, Nx(im, e), a) ELSE Between(im, v, Pv(im, e), e, a)
    ELSE IF link = 0 THEN Between(im, v, NIL, im.V[v][1], a) ELSE Between(im, v, im.V[v][2], NIL, a)
OwnerI(im, a) == im.E[Twin(a)].nb
\* arcs keep their own links when they leave the list
DetachI(im, a) == LET v == OwnerI(im, a) IN SetNextOf(SetPrevOf(im, v, Nx(im, a), Pv(im, a)), v, Pv(im, a), Nx(im, a))
RestArcI(im, a) == LET v == OwnerI(im, a) IN SetNextOf(SetPrevOf(im, v, Nx(im, a), a), v, Pv(im, a), a)

\* <<result, im', arc of u, arc of v>>
InsI(im, u, eu, ul, v, ev, vl) ==
    IF im.M >= im.cap \div 2 THEN <<-1, im, 0, 0>>
    ELSE LET hole == im.holes # <<>>
             b == IF hole THEN im.holes[Len(im.holes)] ELSE InUse(im)
             a == Twin(b)
             i0 == IF hole THEN [im EXCEPT !.holes = Take(@, Len(@) - 1)] ELSE im
             i1 == AttachAt([i0 EXCEPT !.E[a].nb = v], u, eu, ul, a)
             i2 == AttachAt([i1 EXCEPT !.E[b].nb = u], v, ev, vl, b)
         IN <<1, [i2 EXCEPT !.M = @ + 1], a, b>>
AddI(im, u, ul, v, vl) == InsI(im, u, NIL, ul, v, NIL, vl)
DelI(im, e, link) ==
    LET r == IF link = 0 THEN Nx(im, e) ELSE Pv(im, e)
        i1 == DetachI(DetachI(im, e), Twin(e))
        i2 == [i1 EXCEPT !.E[e] = Blank, !.E[Twin(e)] = Blank, !.M = @ - 1]
    IN <<r, IF e < InUse(i2) THEN [i2 EXCEPT !.holes = Append(@, e)] ELSE i2>>
SetDirI(im, e, d) == [im EXCEPT !.E[e].dir = d, !.E[Twin(e)].dir = Opposite(d)]
HideI(im, e) == DetachI(DetachI(im, e), Twin(e))
RestI(im, e) == RestArcI(RestArcI(im, Twin(e)), e)
PushI(im, x) == [im EXCEPT !.stk = Append(@, x)]
RECURSIVE PushAll(_, _), HideRun(_, _, _)
PushAll(im, s) == IF s = <<>> THEN im ELSE PushAll(PushI(im, Head(s)), Tail(s))
\* hide (and push) the arcs from e onwards whose neighbour is in W
HideRun(im, e, W) == IF e = NIL THEN im
                     ELSE HideRun(IF im.E[e].nb \in W THEN HideI(PushI(im, e), e) ELSE im, Nx(im, e), W)
HideVertexI(im, v) == PushAll(HideRun(im, im.V[v][1], 1..im.n), <<Len(im.stk), 0, 0, 0, 0, 0, v>>)
RECURSIVE Chain(_, _, _)
Chain(im, e, k) == IF e = NIL \/ k = 0 THEN <<>> ELSE <<e>> \o Chain(im, Nx(im, e), k - 1)
ListI(im, v) == Chain(im, im.V[v][1], Cardinality(DOMAIN im.E))
RECURSIVE BackChain(_, _, _)
BackChain(im, e, k) == IF e = NIL \/ k = 0 THEN <<>> ELSE <<e>> \o BackChain(im, Pv(im, e), k - 1)
BackI(im, v) == BackChain(im, im.V[v][2], Cardinality(DOMAIN im.E))
RECURSIVE Renb(_, _, _)
Renb(im, s, u) == IF s = <<>> THEN im ELSE Renb([im EXCEPT !.E[Twin(Head(s))].nb = u], Tail(s), u)

IdentifyFar(im, u, v, eb) ==       \* u, v not adjacent
    LET W == {im.E[a].nb : a \in Range(ListI(im, u))}
        i1 == HideRun(im, im.V[v][1], W)
        i2 == PushI(i1, Len(im.stk))
        pred == IF eb # NIL THEN Pv(i2, eb) ELSE i2.V[u][2]
        f == i2.V[v][1]
        l == i2.V[v][2]
        i3 == PushAll(i2, <<eb, l, f, pred, u, v>>)
        i4 == Renb(i3, ListI(i3, v), u)
        i5 == SetL(SetNextOf(i4, u, pred, f), f, 2, pred)
        i6 == SetL(SetPrevOf(i5, u, eb, l), l, 1, eb)
    IN IF f = NIL THEN i4 ELSE [i6 EXCEPT !.V[v] = <<0, 0>>]
ContractI(im, e) ==
    LET u == OwnerI(im, e)
        v == im.E[e].nb
        i1 == IdentifyFar(HideI(PushI(im, e), e), u, v, Nx(im, e))
        k == Len(i1.stk) - 6
    IN [i1 EXCEPT !.stk[k] = @ - 1]
IdentifyI(im, u, v, eb) ==
    LET adj == {a \in Range(ListI(im, u)) : im.E[a].nb = v}
    IN IF adj # {} THEN ContractI(im, CHOOSE a \in adj : TRUE) ELSE IdentifyFar(im, u, v, eb)
RECURSIVE RestDown(_, _)
RestDown(im, bottom) ==
    LET k == Len(im.stk) IN
    IF k <= bottom THEN im ELSE RestDown(RestI([im EXCEPT !.stk = Take(@, k - 1)], im.stk[k]), bottom)
\* <<result, im'>>
RestoreVertexI(im) ==
    LET k == Len(im.stk) IN
    IF k < 7 THEN <<0, im>>
    ELSE LET v == im.stk[k] u == im.stk[k - 1] pred == im.stk[k - 2] f == im.stk[k - 3] l == im.stk[k - 4]
             succ == im.stk[k - 5] bottom == im.stk[k - 6]
             i0 == [im EXCEPT !.stk = Take(@, k - 7)]
             i1 == SetPrevOf(SetNextOf(i0, u, pred, succ), u, succ, pred)
             i2 == [i1 EXCEPT !.V[v] = <<f, l>>]
             i3 == IF f = NIL THEN i2 ELSE SetL(SetL(i2, f, 2, NIL), l, 1, NIL)
             i4 == Renb(i3, ListI(i3, v), v)
         IN <<1, RestDown(IF u = NIL THEN i0 ELSE i4, bottom)>>
RECURSIVE RestoreAllI(_)
RestoreAllI(im) == IF im.stk = <<>> THEN <<1, im>>
                   ELSE LET r == RestoreVertexI(im) IN IF r[1] = 0 THEN r ELSE RestoreAllI(r[2])
EnsureI(im, req) ==
    IF req <= 0 \/ req % 2 = 1 THEN <<0, im>>
    ELSE IF im.cap >= req THEN <<1, im>>
    ELSE <<1, [im EXCEPT !.cap = req, !.E = [e \in First..(First + req - 1) |-> IF e \in DOMAIN im.E THEN im.E[e] ELSE Blank]]>>
\* into a graph d of the same order: grows d when necessary, clears what is left over
CopyI(d, s) ==
    LET cap == IF d.cap < s.cap THEN s.cap ELSE d.cap
    IN [s EXCEPT !.cap = cap, !.E = [e \in First..(First + cap - 1) |-> IF e \in DOMAIN s.E THEN s.E[e] ELSE Blank]]

(* What a user sees of im is the abstract object g *)
Agrees(im, g) ==
    /\ im.n = g.n /\ im.cap = g.cap /\ im.M = Edges(g)
    /\ \A v \in 1..im.n : LET s == ListI(im, v) k == Len(s) b == BackI(im, v) IN
        /\ s = g.adj[v]
        /\ Len(b) = k /\ \A i \in 1..k : b[i] = s[k + 1 - i]
        /\ \A i \in 1..k : im.E[s[i]].nb = g.nb[s[i]] /\ im.E[s[i]].dir = g.dir[s[i]] /\ Twin(s[i]) = g.tw[s[i]]
    \* every record is either used by an edge, or a hole, or beyond the bound
    /\ DOMAIN g.tw \cup UNION {{h, Twin(h)} : h \in Range(im.holes)} = First..(InUse(im) - 1)
    /\ InUse(im) <= First + im.cap
=============================================================================
