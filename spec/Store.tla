-------------------------------- MODULE Store --------------------------------
(* The graph data structure as its users see it: graph objects with ordered  *)
(* adjacency lists of arcs.  Every edge is a pair of twin arcs; arc names are  *)
(* chosen by the implementation and only have to be fresh.                     *)
(*   adj[v]  sequence of the visible arcs out of v                             *)
(*   nb[a]   the vertex arc a points to;   tw[a] its twin;                     *)
(*   dir[a]  0, 32 (in only) or 64 (out only)                                  *)
(*   hid     what hide/contract/identify must give back, newest last           *)
(* Results: 1 OK, 0 NOTOK, -1 NONEMBEDDABLE (here: "edge limit reached").      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE objs
NIL == 0
Range(s) == {s[i] : i \in 1..Len(s)}
Take(s, k) == SubSeq(s, 1, k)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
InsAt(s, k, x) == Take(s, k) \o <<x>> \o Drop(s, k)        \* k elements in front
BlockAt(s, k, b) == Take(s, k) \o b \o Drop(s, k)
PosOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
EmptyF == [x \in {} |-> 0]
Ext(f, a, x) == [y \in DOMAIN f \cup {a} |-> IF y = a THEN x ELSE f[y]]
Restrict(f, D) == [y \in D |-> f[y]]

Fresh(n, cap) == [n |-> n, cap |-> cap, adj |-> [v \in 1..n |-> <<>>], nb |-> EmptyF, tw |-> EmptyF,
                  dir |-> EmptyF, hid |-> <<>>, feats |-> {}]
Edges(g) == Cardinality(DOMAIN g.tw) \div 2
Owner(g, a) == g.nb[g.tw[a]]
Visible(g) == UNION {Range(g.adj[v]) : v \in 1..g.n}
NbrSeq(g, v) == [i \in 1..Len(g.adj[v]) |-> g.nb[g.adj[v][i]]]
SimpleNow(g) == \A v \in 1..g.n : LET s == NbrSeq(g, v) IN v \notin Range(s) /\ Cardinality(Range(s)) = Len(s)

Same == UNCHANGED objs
Put(o, g) == objs' = [objs EXCEPT ![o] = g]

(******************************* creation **********************************)
\* cap0 = 0: no capacity asked for before initialisation (3n edges by default)
New(o, n, cap0, cap) ==
    /\ o \notin DOMAIN objs
    /\ IF cap0 > 0 THEN cap >= cap0 ELSE cap >= 6 * n
    /\ objs' = [x \in DOMAIN objs \cup {o} |-> IF x = o THEN Fresh(n, cap) ELSE objs[x]]
FreeObj(o) == objs' = [x \in DOMAIN objs \ {o} |-> objs[x]]
Reinit(o) == Put(o, [Fresh(objs[o].n, objs[o].cap) EXCEPT !.feats = objs[o].feats])

(****************************** adding edges *******************************)
VertexArg(g, v) == v \in 1..g.n
EdgeIn(g, u, ku, v, kv, a, b, cap) ==
    [g EXCEPT !.cap = cap,
              !.adj = [g.adj EXCEPT ![u] = InsAt(@, ku, a), ![v] = InsAt(@, kv, b)],
              !.nb = Ext(Ext(g.nb, a, v), b, u),
              !.tw = Ext(Ext(g.tw, a, b), b, a),
              !.dir = Ext(Ext(g.dir, a, 0), b, 0)]
EndPos(g, v, link) == IF link = 0 THEN 0 ELSE Len(g.adj[v])
NewArcs(g, a, b) == a # b /\ a # NIL /\ b # NIL /\ a \notin DOMAIN g.tw /\ b \notin DOMAIN g.tw

\* u, v different vertices; link 0 puts the arc first, 1 last
Add(o, u, ul, v, vl, ret, a, b) ==
    LET g == objs[o] IN
    IF ~VertexArg(g, u) \/ ~VertexArg(g, v) THEN ret = 0 /\ Same
    ELSE IF Edges(g) >= g.cap \div 2 THEN ret = -1 /\ Same
    ELSE ret = 1 /\ NewArcs(g, a, b) /\ Put(o, EdgeIn(g, u, EndPos(g, u, ul), v, EndPos(g, v, vl), a, b, g.cap))

\* features that keep data per edge may refuse to grow
Rigid(g) == g.feats \cap {"d", "3", "4"} # {}
DynAdd(o, u, ul, v, vl, ret, a, b, cap) ==
    LET g == objs[o] IN
    IF ~VertexArg(g, u) \/ ~VertexArg(g, v) THEN ret = 0 /\ Same
    ELSE LET full == Edges(g) >= g.cap \div 2
             put == /\ NewArcs(g, a, b)
                    /\ Put(o, EdgeIn(g, u, EndPos(g, u, ul), v, EndPos(g, v, vl), a, b, cap))
         IN IF ~full THEN ret = 1 /\ cap = g.cap /\ put
            ELSE \/ ret = 1 /\ cap > g.cap /\ put
                 \/ ret = -1 /\ Edges(g) >= (g.n * (g.n - 1)) \div 2 /\ cap >= g.cap /\ Put(o, [g EXCEPT !.cap = cap])
                 \/ ret = 0 /\ Rigid(g) /\ Same

\* place next to a given arc of the vertex: link 0 right after it, 1 right before it
PlacePos(g, v, e, link) == IF e = NIL THEN EndPos(g, v, link)
                           ELSE PosOf(g.adj[v], e) - (IF link = 0 THEN 0 ELSE 1)
PlaceArg(g, v, e) == e = NIL \/ e \in Range(g.adj[v])
Insert(o, u, eu, ul, v, ev, vl, ret, a, b) ==
    LET g == objs[o] IN
    IF ~VertexArg(g, u) \/ ~VertexArg(g, v) \/ ~PlaceArg(g, u, eu) \/ ~PlaceArg(g, v, ev) \/ ul \notin {0, 1} \/ vl \notin {0, 1}
    THEN ret = 0 /\ Same
    ELSE IF Edges(g) >= g.cap \div 2 THEN ret = -1 /\ Same
    ELSE ret = 1 /\ NewArcs(g, a, b) /\ Put(o, EdgeIn(g, u, PlacePos(g, u, eu, ul), v, PlacePos(g, v, ev, vl), a, b, g.cap))

(************************ deleting, directing, moving **********************)
Unlink(g, S) == [v \in 1..g.n |-> Without(g.adj[v], S)]
Neighbour(s, e, link) == LET k == PosOf(s, e) + (IF link = 0 THEN 1 ELSE -1)
                         IN IF k \in 1..Len(s) THEN s[k] ELSE NIL
Delete(o, e, link, ret) ==
    LET g == objs[o]
        S == {e, g.tw[e]}
        D == DOMAIN g.tw \ S
    IN /\ ret = Neighbour(g.adj[Owner(g, e)], e, link)
       /\ Put(o, [g EXCEPT !.adj = Unlink(g, S), !.nb = Restrict(g.nb, D), !.tw = Restrict(g.tw, D), !.dir = Restrict(g.dir, D)])
Opposite(d) == CASE d = 0 -> 0 [] d = 32 -> 64 [] d = 64 -> 32
SetDir(o, e, d) ==
    LET g == objs[o] IN Put(o, [g EXCEPT !.dir = [@ EXCEPT ![e] = d, ![g.tw[e]] = Opposite(d)]])
MoveArc(o, v, e, last) ==
    LET g == objs[o] r == Without(g.adj[v], {e})
    IN Put(o, [g EXCEPT !.adj[v] = IF last THEN Append(r, e) ELSE <<e>> \o r])

\* an arc is taken out of its list and put back next to another arc f of it (or at an end)
Rewire(o, e, f, link) ==
    LET g == objs[o] v == Owner(g, e) r == Without(g.adj[v], {e})
    IN Put(o, [g EXCEPT !.adj[v] = InsAt(r, PlacePos([g EXCEPT !.adj[v] = r], v, f, link), e)])

(******************************** queries **********************************)
\* cn, cp: what follows / precedes each arc of u, around the vertex
Query(o, u, v, isn, rec, deg, din, dout, cn, cp) ==
    LET g == objs[o]
        A == Range(g.adj[u])
        uv == {a \in A : g.nb[a] = v}
    IN /\ (isn # 0) = (\E a \in uv : g.dir[a] # 32)
       /\ IF uv = {} THEN rec = NIL ELSE rec \in uv
       /\ deg = Cardinality(A)
       /\ din = Cardinality({a \in A : g.dir[a] # 64})
       /\ dout = Cardinality({a \in A : g.dir[a] # 32})
       /\ LET s == g.adj[u] k == Len(s) IN
            /\ cn = [i \in 1..k |-> s[IF i = k THEN 1 ELSE i + 1]]
            /\ cp = [i \in 1..k |-> s[IF i = 1 THEN k ELSE i - 1]]
       /\ Same

(******************************** capacity *********************************)
Ensure(o, req, ret, cap) ==
    LET g == objs[o] IN
    IF req <= 0 \/ req % 2 = 1 THEN ret = 0 /\ Same
    ELSE IF req <= g.cap THEN ret = 1 /\ Same
    ELSE \/ ret = 1 /\ cap >= req /\ Put(o, [g EXCEPT !.cap = cap])
         \/ ret = 0 /\ Rigid(g) /\ Same

(***************** hiding, contracting, identifying, restoring *************)
Push(g, kind) == Append(g.hid, [k |-> kind, adj |-> g.adj, nb |-> g.nb])
HideEdge(o, e) ==
    LET g == objs[o] IN Put(o, [g EXCEPT !.adj = Unlink(g, {e, g.tw[e]}), !.hid = Push(g, "e")])
HideVertex(o, v) ==
    LET g == objs[o] IN
    Put(o, [g EXCEPT !.adj = Unlink(g, UNION {{a, g.tw[a]} : a \in Range(g.adj[v])}), !.hid = Push(g, "v")])

\* v is merged into u: common edges and the edge uv disappear from view, the remaining arcs of v
\* go, in their order, as one block to position k of what is left of u's list
Merged(g, u, v, k) ==
    LET nu == {g.nb[a] : a \in Range(g.adj[u])}
        H == {a \in Range(g.adj[v]) : g.nb[a] = u \/ g.nb[a] \in nu}
        gone == H \cup {g.tw[a] : a \in H}
        base == Unlink(g, gone)
        blk == base[v]
    IN [g EXCEPT !.adj = [base EXCEPT ![u] = BlockAt(base[u], k, blk), ![v] = <<>>],
                 !.nb = [a \in DOMAIN g.nb |-> IF g.tw[a] \in Range(blk) THEN u ELSE g.nb[a]],
                 !.hid = Push(g, "v")]
Adjacent(g, u, v) == \E a \in Range(g.adj[u]) : g.nb[a] = v
Contract(o, e, ret, k) ==
    LET g == objs[o] u == Owner(g, e) v == g.nb[e]
    IN ret = 1 /\ k \in 0..(Len(g.adj[u]) - 1) /\ Put(o, Merged(g, u, v, k))
Identify(o, u, v, eb, ret, k) ==
    LET g == objs[o] IN
    /\ ret = 1
    /\ IF Adjacent(g, u, v) THEN k \in 0..(Len(g.adj[u]) - 1)
       ELSE k = IF eb = NIL THEN Len(g.adj[u]) ELSE PosOf(g.adj[u], eb) - 1
    /\ Put(o, Merged(g, u, v, k))
Pop(g, k) == LET h == g.hid[k] IN [g EXCEPT !.adj = h.adj, !.nb = h.nb, !.hid = Take(g.hid, k - 1)]
RestoreEdge(o) == LET g == objs[o] IN
    Len(g.hid) > 0 /\ g.hid[Len(g.hid)].k = "e" /\ Put(o, Pop(g, Len(g.hid)))
RestoreVertex(o, ret) == LET g == objs[o] IN
    IF Len(g.hid) = 0 THEN ret = 0 /\ Same
    ELSE g.hid[Len(g.hid)].k = "v" /\ ret = 1 /\ Put(o, Pop(g, Len(g.hid)))
RestoreAll(o, ret) == LET g == objs[o] IN
    /\ ret = 1
    /\ IF Len(g.hid) = 0 THEN Same
       ELSE (\A i \in 1..Len(g.hid) : g.hid[i].k = "v") /\ Put(o, Pop(g, 1))

(***************************** copies, features ****************************)
Copy(d, s, ret, cap) ==
    IF objs[d].n # objs[s].n THEN ret = 0 /\ Same
    ELSE \/ ret = 1 /\ cap >= objs[s].cap /\ cap >= objs[d].cap /\ Put(d, [objs[s] EXCEPT !.cap = cap])
         \/ ret = 0 /\ objs[s].cap > objs[d].cap /\ Rigid(objs[d]) /\ Same
Dup(d, s, cap) ==
    /\ d \notin DOMAIN objs
    /\ cap >= objs[s].cap
    /\ objs' = [x \in DOMAIN objs \cup {d} |-> IF x = d THEN [objs[s] EXCEPT !.cap = cap] ELSE objs[x]]
\* adjacency lists only: the directions of the copy are whatever they turn out to be (dirs)
CopyAdj(d, s, ret, cap, dirs) ==
    IF objs[d].n # objs[s].n THEN ret = 0 /\ Same
    ELSE \/ /\ ret = 1 /\ cap >= objs[s].cap /\ cap >= objs[d].cap
            /\ DOMAIN objs[s].tw \subseteq DOMAIN dirs
            /\ Put(d, [objs[s] EXCEPT !.cap = cap, !.feats = objs[d].feats, !.dir = Restrict(dirs, DOMAIN objs[s].tw)])
         \/ ret = 0 /\ objs[s].cap > objs[d].cap /\ Rigid(objs[d]) /\ Same
Attach(o, f, ret) == ret = 1 /\ Put(o, [objs[o] EXCEPT !.feats = @ \cup {f}])
Detach(o, f) == Put(o, [objs[o] EXCEPT !.feats = @ \ {f}])

(****************************** observation ********************************)
\* Two lists per vertex: forwards <<arc, neighbour, direction, twin>>, backwards arcs
Shows(g, ob) ==
    /\ ob.n = g.n /\ ob.m = Edges(g) /\ ob.cap = g.cap
    /\ Len(ob.f) = g.n /\ Len(ob.b) = g.n
    /\ \A v \in 1..g.n :
        LET s == g.adj[v] k == Len(s) IN
        /\ Len(ob.f[v]) = k /\ Len(ob.b[v]) = k
        /\ \A i \in 1..k : /\ ob.f[v][i] = <<s[i], g.nb[s[i]], g.dir[s[i]], g.tw[s[i]]>>
                           /\ ob.b[v][i] = s[k + 1 - i]

(****************************** invariants *********************************)
Wf(g) ==
    /\ DOMAIN g.nb = DOMAIN g.tw /\ DOMAIN g.dir = DOMAIN g.tw
    /\ \A a \in DOMAIN g.tw : g.tw[g.tw[a]] = a /\ g.tw[a] # a /\ g.dir[g.tw[a]] = Opposite(g.dir[a])
    /\ \A v \in 1..g.n : Cardinality(Range(g.adj[v])) = Len(g.adj[v])
    /\ \A v \in 1..g.n : \A a \in Range(g.adj[v]) :
            a \in DOMAIN g.tw /\ Owner(g, a) = v /\ g.tw[a] \in Range(g.adj[g.nb[a]])
    /\ (g.hid = <<>>) => Visible(g) = DOMAIN g.tw
    /\ Edges(g) <= g.cap \div 2
=============================================================================
