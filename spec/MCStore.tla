------------------------------- MODULE MCStore -------------------------------
(* Runs the abstract store and its realisation side by side over every short   *)
(* history; the realisation has to show the same lists and results.            *)
EXTENDS StoreImpl
CONSTANTS N, Cap0, CapMax, Steps, Ops, HidMax
VARIABLES im, edges, ok, left

Init == /\ \E c \in Cap0 : objs = [o \in {0} |-> Fresh(N, c)] /\ im = ImFresh(N, c)
        /\ edges = <<>> /\ ok = TRUE /\ left = Steps
g == objs[0]
Vis == Visible(g)
\* abstract action A(ret..), realisation result r
Tick == left > 0 /\ left' = left - 1
On(x) == x \in Ops /\ Tick
NextStep ==
    \/ On("add") /\ Len(g.hid) = 0 /\ \E u, v \in 1..N, ul, vl \in {0, 1} : u # v /\ ~Adjacent(g, u, v) /\
         LET r == AddI(im, u, ul, v, vl) IN
         /\ im' = r[2] /\ UNCHANGED edges
         /\ ok' = ENABLED Add(0, u, ul, v, vl, r[1], r[3], r[4])
         /\ IF ok' THEN Add(0, u, ul, v, vl, r[1], r[3], r[4]) ELSE Same
    \/ On("insert") /\ Len(g.hid) = 0 /\ \E u, v \in 1..N, ul, vl \in {0, 1} : u # v /\ ~Adjacent(g, u, v) /\
         \E eu \in Range(g.adj[u]) \cup {NIL}, ev \in Range(g.adj[v]) \cup {NIL} :
         LET r == InsI(im, u, eu, ul, v, ev, vl) IN
         /\ im' = r[2] /\ UNCHANGED edges
         /\ ok' = ENABLED Insert(0, u, eu, ul, v, ev, vl, r[1], r[3], r[4])
         /\ IF ok' THEN Insert(0, u, eu, ul, v, ev, vl, r[1], r[3], r[4]) ELSE Same
    \/ On("delete") /\ Len(g.hid) = 0 /\ \E e \in Vis, l \in {0, 1} :
         LET r == DelI(im, e, l) IN
         /\ im' = r[2] /\ UNCHANGED edges
         /\ ok' = ENABLED Delete(0, e, l, r[1])
         /\ IF ok' THEN Delete(0, e, l, r[1]) ELSE Same
    \/ On("dir") /\ Len(g.hid) = 0 /\ \E e \in Vis, l \in {0, 1} : \E f \in (Range(g.adj[Owner(g, e)]) \ {e}) \cup {NIL} :
            im' = AttachAt(DetachI(im, e), OwnerI(im, e), f, l, e) /\ Rewire(0, e, f, l) /\ UNCHANGED <<edges, ok>>
    \/ On("dir") /\ \E e \in Vis, d \in {0, 32, 64} : im' = SetDirI(im, e, d) /\ SetDir(0, e, d) /\ UNCHANGED <<edges, ok>>
    \/ On("ensure") /\ \E c \in 1..CapMax : LET r == EnsureI(im, c) IN
         /\ im' = r[2] /\ UNCHANGED edges
         /\ ok' = ENABLED Ensure(0, c, r[1], r[2].cap)
         /\ IF ok' THEN Ensure(0, c, r[1], r[2].cap) ELSE Same
    \/ On("hide") /\ Len(g.hid) < HidMax /\ \E e \in Vis : im' = HideI(im, e) /\ HideEdge(0, e) /\ edges' = Append(edges, e) /\ UNCHANGED ok
    \/ On("hide") /\ Len(g.hid) < HidMax /\ \E v \in 1..N : im' = HideVertexI(im, v) /\ HideVertex(0, v) /\ UNCHANGED <<edges, ok>>
    \/ On("contract") /\ Len(g.hid) < HidMax /\ SimpleNow(g) /\ \E e \in Vis :
         /\ im' = ContractI(im, e) /\ UNCHANGED <<edges, ok>>
         /\ \E k \in 0..(Len(g.adj[Owner(g, e)]) - 1) : Contract(0, e, 1, k) /\ Agrees(im', objs'[0])
    \/ On("identify") /\ Len(g.hid) < HidMax /\ SimpleNow(g) /\ \E u, v \in 1..N : u # v /\ \E eb \in Range(g.adj[u]) \cup {NIL} :
         /\ im' = IdentifyI(im, u, v, eb) /\ UNCHANGED <<edges, ok>>
         /\ \E k \in 0..Len(g.adj[u]) : Identify(0, u, v, eb, 1, k) /\ Agrees(im', objs'[0])
    \/ Tick /\ Len(g.hid) > 0 /\ g.hid[Len(g.hid)].k = "e" /\ im' = RestI(im, edges[Len(edges)]) /\ RestoreEdge(0)
         /\ edges' = Take(edges, Len(edges) - 1) /\ UNCHANGED ok
    \/ Tick /\ (Len(g.hid) > 0 => g.hid[Len(g.hid)].k = "v") /\ LET r == RestoreVertexI(im) IN
         im' = r[2] /\ UNCHANGED edges /\ ok' = ENABLED RestoreVertex(0, r[1]) /\ IF ok' THEN RestoreVertex(0, r[1]) ELSE Same
    \/ Tick /\ Len(edges) = 0 /\ LET r == RestoreAllI(im) IN
         im' = r[2] /\ UNCHANGED edges /\ ok' = ENABLED RestoreAll(0, r[1]) /\ IF ok' THEN RestoreAll(0, r[1]) ELSE Same
\* contraction and identification are never stuck
CanMerge == ("contract" \in Ops /\ SimpleNow(g)) => \A e \in Vis :
    \E k \in 0..(Len(g.adj[Owner(g, e)]) - 1) : Agrees(ContractI(im, e), Merged(g, Owner(g, e), g.nb[e], k))
CanIdentify == ("identify" \in Ops /\ SimpleNow(g)) => \A u, v \in 1..N : u # v => \A eb \in Range(g.adj[u]) \cup {NIL} :
    \E k \in 0..Len(g.adj[u]) : ENABLED Identify(0, u, v, eb, 1, k) /\ Agrees(IdentifyI(im, u, v, eb), Merged(g, u, v, k))
vars == <<objs, im, edges, ok, left>>
Spec == Init /\ [][NextStep]_vars
SameView == ok /\ Agrees(im, g)
WellFormed == Wf(g)
\* merging keeps the visible graph simple
StaysSimple == (\A i \in 1..Len(g.hid) : TRUE) => SimpleNow(g)
\* a copy into a graph of any capacity shows the same and stands for the same object
CopyAgrees == \A c \in Cap0 : LET d == CopyI([ImFresh(N, c) EXCEPT !.E = [e \in DOMAIN @ |-> [l |-> <<0, 0>>, nb |-> 0, dir |-> 32]]], im)
                              IN Agrees(d, [g EXCEPT !.cap = d.cap]) /\ \A e \in InUse(d)..(First + d.cap - 1) : d.E[e] = Blank
\* undoing everything from any point gives the earliest recorded lists
Undoable == (edges = <<>> /\ Len(g.hid) > 0) => LET r == RestoreAllI(im) IN r[1] = 1 /\ Agrees(r[2], Pop(g, 1))
=============================================================================
