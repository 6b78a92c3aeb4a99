------------------------------- MODULE Steps -------------------------------
(* Embedding by edge addition, seen step by step.                            *)
(*                                                                           *)
(* The vertices are known by their depth-first numbers 1..n.  While the      *)
(* embedding is being made the structure holds, besides the vertex p, a copy *)
(* n+c of the parent p of c for every child c whose subtree is not (yet)     *)
(* joined to a proper ancestor of p: the root of a biconnected component of  *)
(* its own.  The state is the set of back edges embedded so far and one      *)
(* cyclic list of neighbours for each vertex and each copy, cut open where   *)
(* the vertex touches the external face of its component.                    *)
(*                                                                           *)
(* SafeStep is what every partial embedding has to satisfy.  MCSteps makes   *)
(* partial embeddings by flipping, merging and adding edges (EmbedBack) and  *)
(* checks SafeStep and the end result over all small graphs; TraceSteps      *)
(* judges the states that the code goes through.                             *)
EXTENDS GraphMath

VARIABLES sph,    \* "none" | "loaded" | "running" | "over"
          sn, ses,\* the graph: order and edges (original labels)
          spar,   \* spar[c]: the parent of c in the depth-first tree, 0 for a root
          sback,  \* the back edges <<ancestor, descendant>>
          semb,   \* those embedded so far
          srot,   \* the lists, 1..n the vertices and n+1..2n the root copies, all seen from the same side
          sv,     \* the vertex being processed
          salg
svars == <<sph, sn, ses, spar, sback, semb, srot, sv, salg>>

(******************************* the tree ***********************************)
RECURSIVE Up(_, _)
Up(par, x) == IF x = 0 THEN {} ELSE {x} \cup Up(par, par[x])
Ancs(par) == TLCEval([x \in 1..Len(par) |-> Up(par, x)])
Subs(par) == LET an == Ancs(par) IN TLCEval([c \in 1..Len(par) |-> {x \in 1..Len(par) : c \in an[x]}])
TreeArcs(par) == {<<par[c], c>> : c \in {x \in 1..Len(par) : par[x] # 0}}
Toward(an, par, a, d) == CHOOSE c \in an[d] : par[c] = a
\* par is a depth-first tree of the graph with arcs nb-wise given by pairs (a, d), a < d
IsDFSTree(par, pairs) ==
    LET an == Ancs(par) IN
    /\ \A x \in 1..Len(par) : par[x] < x
    /\ TreeArcs(par) \subseteq pairs
    /\ \A e \in pairs : e[1] \in an[e[2]]

(****************************** the structure *******************************)
\* c heads a component of its own: nothing embedded leads from below c past its parent
Heads(par, emb) == LET sub == Subs(par) IN
    TLCEval({c \in 1..Len(par) : par[c] # 0 /\ \A e \in emb : e[2] \notin sub[c] \/ e[1] >= par[c]})
RECURSIVE TopOf(_, _, _)
TopOf(par, hs, x) == IF x \in hs THEN x ELSE TopOf(par, hs, par[x])
\* the arcs of the structure when emb is embedded: determined entirely by the tree
Upper(an, par, hs, e) == LET c == Toward(an, par, e[1], e[2]) IN IF c \in hs THEN Len(par) + c ELSE e[1]
StructureArcs(par, emb) ==
    LET an == Ancs(par) hs == Heads(par, emb)
        up == {<<Upper(an, par, hs, e), e[2]>> : e \in TreeArcs(par) \cup emb}
    IN TLCEval(up \cup {<<p[2], p[1]>> : p \in up})
\* which back edges a structure contains
Primary(par, x) == IF x > Len(par) THEN par[x - Len(par)] ELSE x
EmbeddedIn(par, rot) ==
    TLCEval({e \in {LET a == Primary(par, x[1]) b == Primary(par, x[2]) IN <<a, b>> : x \in ArcsOfAdj(rot)} : e[1] < e[2]}
            \ TreeArcs(par))

\* lists as the code keeps them (a vertex may be mirrored, recorded at the edge from its parent) seen from one side
RECURSIVE Mirrored(_, _, _, _)
Mirrored(par, hs, inv, x) == IF x \in hs THEN x \in inv
                             ELSE (x \in inv) # Mirrored(par, hs, inv, par[x])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Upright(par, hs, inv, rot) ==
    TLCEval([x \in 1..Len(rot) |-> IF x <= Len(par) /\ rot[x] # <<>> /\ par[x] # 0 /\ Mirrored(par, hs, inv, x)
                                   THEN Rev(rot[x]) ELSE rot[x]])

\* the external face of the component with root r, from r's first neighbour back to r; <<>> if it does not close
RECURSIVE Walk(_, _, _, _)
Walk(rot, r, x, seen) ==
    LET w == rot[x][1] IN
    IF rot[w] = <<>> \/ rot[w][Len(rot[w])] # x THEN <<>>
    ELSE IF w = r THEN seen
    ELSE IF w \in Rng(seen) THEN <<>>
    ELSE Walk(rot, r, w, Append(seen, w))
ExtFace(rot, r) == IF rot[r] = <<>> THEN <<>> ELSE Walk(rot, r, r, <<>>)

(******************************* obligations ********************************)
\* x still has edges to come, or carries a component that has
Waits(sub, par, hs, todo, x) ==
    \/ \E e \in todo : e[2] = x
    \/ \E e \in todo : e[1] < x /\ \E c \in hs : par[c] = x /\ e[2] \in sub[c]
Pending(par, hs, todo) == LET sub == Subs(par) IN TLCEval({x \in 1..Len(par) : Waits(sub, par, hs, todo, x)})

SafeStep(par, back, emb, rot, outer) ==
    LET hs == Heads(par, emb) n == Len(par)
        fs == TLCEval([c \in hs |-> Rng(ExtFace(rot, n + c))])
        need == IF outer THEN 1..n ELSE Pending(par, hs, back \ emb)
    IN /\ Len(rot) = 2 * n
       /\ \A x \in 1..(2 * n) : IsInj(rot[x])
       /\ ArcsOfAdj(rot) = StructureArcs(par, emb)
       /\ \A c \in hs : fs[c] # {}
       /\ \A x \in need : par[x] # 0 => x \in fs[TopOf(par, hs, x)]
       /\ PlanarRotation(rot)

(********************************* actions **********************************)
SInit == sph = "none" /\ sn = 0 /\ ses = <<>> /\ spar = <<>> /\ sback = {} /\ semb = {} /\ srot = <<>> /\ sv = 0 /\ salg = ""
SLoad(n, es, al) ==
    /\ sph = "none"
    /\ SimpleEs(n, es) = TRUE
    /\ sph' = "loaded" /\ sn' = n /\ ses' = es /\ salg' = al
    /\ UNCHANGED <<spar, sback, semb, srot, sv>>
\* ix[p] = the original label of number p
SBegin(ix, par) ==
    /\ sph = "loaded"
    /\ (Len(ix) = sn /\ IsInj(ix) /\ Rng(ix) = 1..sn /\ Len(par) = sn) = TRUE
    /\ LET arcs == ArcsOf(ses)
           pairs == TLCEval({p \in (1..sn) \X (1..sn) : p[1] < p[2] /\ (<<ix[p[1]], ix[p[2]]>> \in arcs \/ <<ix[p[2]], ix[p[1]]>> \in arcs)})
       IN /\ IsDFSTree(par, pairs) = TRUE
          /\ sback' = pairs \ TreeArcs(par)
    /\ sph' = "running" /\ spar' = par /\ semb' = {} /\ sv' = sn
    /\ srot' = [x \in 1..(2 * sn) |-> IF x <= sn THEN (IF par[x] = 0 THEN <<>> ELSE <<sn + x>>)
                                      ELSE IF par[x - sn] = 0 THEN <<>> ELSE <<x - sn>>]
    /\ UNCHANGED <<sn, ses, salg>>
\* a state reached while v is processed; `all`: nothing that belongs to v remains
SStep(v, rot, inv, all) ==
    /\ sph = "running" /\ v <= sv
    /\ LET emb == EmbeddedIn(spar, rot)
           up == Upright(spar, Heads(spar, emb), inv, rot)
       IN /\ (emb \subseteq {e \in sback : e[1] >= v}) = TRUE
          /\ ({e \in sback : e[1] > v \/ (all /\ e[1] = v)} \subseteq emb) = TRUE
          /\ SafeStep(spar, sback, emb, up, salg = "o") = TRUE
          /\ semb' = emb /\ srot' = up
    /\ sv' = v
    /\ UNCHANGED <<sph, sn, ses, spar, sback, salg>>
\* an embedding exists exactly when everything was embedded
SOver(ret) ==
    /\ sph \in {"loaded", "running"}
    /\ ret = 1 => (sph = "running" => semb = sback)
    /\ sph' = "none" /\ sn' = 0 /\ ses' = <<>> /\ spar' = <<>> /\ sback' = {} /\ semb' = {} /\ srot' = <<>> /\ sv' = 0 /\ salg' = ""

(******************* making partial embeddings (the algorithm) **************)
Flip(par, hs, rot, c) == TLCEval([x \in 1..Len(rot) |->
    IF x = Len(par) + c \/ (x <= Len(par) /\ par[x] # 0 /\ TopOf(par, hs, x) = c) THEN Rev(rot[x]) ELSE rot[x]])
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
\* the components between v and d: their heads, top down; Exits: where each is left
HeadsBetween(par, hs, v, d) == LET an == Ancs(par) c == Toward(an, par, v, d) IN SortedSeq({x \in an[d] : x >= c /\ x \in hs})
Exits(par, cs, d) == [i \in 1..Len(cs) |-> IF i = Len(cs) THEN d ELSE par[cs[i + 1]]]
Before(f, w) == LET k == CHOOSE i \in 1..Len(f) : f[i] = w IN {f[i] : i \in 1..(k - 1)}
\* component i is turned over first when fl[i], so that its exit is reached along first neighbours
RECURSIVE FlipAll(_, _, _, _, _)
FlipAll(par, hs, rot, cs, fl) == IF cs = <<>> THEN rot
    ELSE FlipAll(par, hs, IF fl[1] THEN Flip(par, hs, rot, cs[1]) ELSE rot, Tail(cs), Tail(fl))
\* merge the components cs at their exits and add the edge from the first root to d around the outside
RECURSIVE Splice(_, _, _, _, _)
Splice(n, rot, cs, ex, i) ==
    IF i > Len(cs) THEN rot
    ELSE LET r == n + cs[i] w == ex[i - 1]
             joined == [rot EXCEPT ![w] = @ \o rot[r], ![r] = <<>>]
         IN Splice(n, TLCEval([x \in 1..Len(rot) |-> [k \in 1..Len(joined[x]) |-> IF joined[x][k] = r THEN w ELSE joined[x][k]]]), cs, ex, i + 1)
AddEdge(n, rot, r, d) == [rot EXCEPT ![r] = <<d>> \o @, ![d] = @ \o <<r>>]
EmbedBack(par, hs, rot, v, d, fl) ==
    LET cs == HeadsBetween(par, hs, v, d) IN
    AddEdge(Len(par), Splice(Len(par), FlipAll(par, hs, rot, cs, fl), cs, Exits(par, cs, d), 2), Len(par) + cs[1], d)
\* may the edge be added there?  Only what has no edges to come may be enclosed.
Allowed(par, back, emb, rot, v, d, fl) ==
    LET hs == Heads(par, emb) n == Len(par)
        cs == HeadsBetween(par, hs, v, d) ex == Exits(par, cs, d)
        r2 == FlipAll(par, hs, rot, cs, fl)
        pend == Pending(par, hs, back \ emb)
    IN \A i \in 1..Len(cs) : Before(ExtFace(r2, n + cs[i]), ex[i]) \cap pend = {}
\* The order in which the algorithm prefers edges when there is a choice: first what needs nothing later.
\* Below v: "now" = x has an edge to v to come (itself or through a component it carries), "later" = to an ancestor of v.
Now(sub, par, hs, todo, v, x) == <<v, x>> \in todo \/ \E c \in hs : par[c] = x /\ \E y \in sub[c] : <<v, y>> \in todo
Later(sub, par, hs, todo, v, x) == Waits(sub, par, hs, {e \in todo : e[1] < v}, x)
CompNow(sub, todo, v, c) == \E y \in sub[c] : <<v, y>> \in todo
CompLater(sub, todo, v, c) == \E e \in todo : e[1] < v /\ e[2] \in sub[c]
FirstPending(f, pend) == LET k == {i \in 1..Len(f) : f[i] \in pend} IN IF k = {} THEN 0 ELSE f[CHOOSE i \in k : \A j \in k : i <= j]
Preferred(par, back, emb, rot, v, d, fl) ==
    LET hs == Heads(par, emb) n == Len(par) sub == Subs(par) todo == back \ emb
        cs == HeadsBetween(par, hs, v, d) ex == Exits(par, cs, d)
        r2 == FlipAll(par, hs, rot, cs, fl)
        pend == Pending(par, hs, todo)
    IN /\ \A i \in 1..(Len(cs) - 1) :
            /\ <<v, ex[i]>> \notin todo
            /\ CompLater(sub, todo, v, cs[i + 1]) =>
                 ~\E c \in hs : par[c] = ex[i] /\ CompNow(sub, todo, v, c) /\ ~CompLater(sub, todo, v, c)
       /\ \A i \in 2..Len(cs) :
            LET f == ExtFace(r2, n + cs[i]) o == FirstPending(Rev(f), pend) IN
            Later(sub, par, hs, todo, v, ex[i]) =>
              ~(o # 0 /\ Now(sub, par, hs, todo, v, o) /\ ~Later(sub, par, hs, todo, v, o))
=============================================================================
