---------------------------- MODULE EmbedMachine ----------------------------
(* The planarity suite seen as a machine that owns one graph object.          *)
(*                                                                            *)
(*   "none" --Load--> "loaded" --Embed--> "done" --Sort--> "done" ...         *)
(*                                                                            *)
(* Embed is nondeterministic: it may produce ANY planar rotation system when  *)
(* it succeeds and ANY obstruction subgraph when it fails; what it may not do *)
(* is give the wrong answer.  MCEmbed.tla explores the machine exhaustively   *)
(* for small graphs; TraceEmbed.tla checks recorded runs of the C code        *)
(* against it.                                                                *)
EXTENDS GraphMath

VARIABLES phase,   \* "none" | "loaded" | "done"
          gn, ges, \* the graph that was loaded: order and edges (pairs, original labels)
          adj,     \* adjacency lists of the object in its current numbering
          num,     \* num[p] = the number position p has in the other numbering
          alg, ret \* last algorithm and its answer
emVars == <<phase, gn, ges, adj, num, alg, ret>>

OK == 1
NONEMB == -1

IsPerm(s, n) == Len(s) = n /\ Rng(s) = 1..n
InvPerm(s) == LET m == [p \in 1..Len(s) |-> <<s[p], p>>]
                  f == TLCEval({m[p] : p \in 1..Len(s)})
              IN TLCEval([q \in 1..Len(s) |-> CHOOSE p \in 1..Len(s) : s[p] = q])

\* virtual vertices n+c (bicomp root copies named after the child c) move with c
MapV(s, n, x) == IF x <= n THEN s[x] ELSE n + s[x - n]
\* adjacency lists renumbered from the current numbering to the other one
Renumber(a, s) == LET inv == InvPerm(s) n == Len(s)
                  IN TLCEval([q \in 1..n |-> [i \in 1..Len(a[inv[q]]) |-> MapV(s, n, a[inv[q]][i])]])

(************************ what an answer has to satisfy *********************)
SubgraphOf(a, n, es) == IsSimpleAdj(a) /\ ArcsOfAdj(a) \subseteq ArcsOf(es)
SameGraphAs(a, n, es) == IsSimpleAdj(a) /\ Len(a) = n /\ ArcsOfAdj(a) = ArcsOf(es)

\* a = adjacency lists in ORIGINAL labels
GoodEmbedding(al, a, n, es) ==
    CASE al \in {"p", "d"} -> SameGraphAs(a, n, es) /\ PlanarRotation(a)
      [] al = "o" -> SameGraphAs(a, n, es) /\ PlanarRotation(a) /\ OuterFaceRotation(a)
      [] OTHER -> TRUE      \* the searches leave no documented structure on success

Targets(al) == CASE al \in {"p", "d"} -> {"K5", "K33"} [] al = "o" -> {"K4", "K23"}
                 [] al = "2" -> {"K23"} [] al = "3" -> {"K33"} [] al = "4" -> {"K4"}

GoodObstruction(al, a, n, es) ==
    /\ SubgraphOf(a, n, es)
    /\ \E h \in Targets(al) : IsSubdivision(NbrsOf(a), h)

ObstructionPairs(al, ps, n, es) ==
    /\ ArcsOf(ps) \subseteq ArcsOf(es)
    /\ \E h \in Targets(al) : IsSubdivision(NbrsOfEs(n, ps), h)

\* A success answer of a search is right when the input has no such subgraph.  For K3,3 the
\* proof is a decomposition certificate; a counterexample `ref` refutes the answer.
SuccessIsRight(al, n, es, cert, ref) ==
    CASE al = "4" -> ~HasK4(NbrsOfEs(n, es))
      [] al = "2" -> ~HasK23(NbrsOfEs(n, es))
      [] al = "3" -> K33FreeCert(n, es, cert) \/ ~ObstructionPairs("3", ref, n, es)
      [] OTHER -> TRUE

\* A witness against an answer: a rotation system for a failure, an obstruction for a success.
Refuted(al, r, n, es, wit) ==
    CASE wit.k = "rot" /\ r = NONEMB /\ al \in {"p", "d"} -> GoodEmbedding("p", wit.d, n, es)
      [] wit.k = "rot" /\ r = NONEMB /\ al = "o" -> GoodEmbedding("o", wit.d, n, es)
      [] wit.k = "sub" /\ r = OK -> ObstructionPairs(al, wit.d, n, es)
      [] OTHER -> FALSE

(******************************** DFS numbering *****************************)
\* The numbering positions 1..n are discovery times of some depth-first search of nb
\* (nb in positions): at every step the next vertex is a neighbour of the deepest
\* vertex of the current path that still has unvisited neighbours.
RECURSIVE DFSRun(_, _, _, _)
DFSRun(nb, n, path, next) ==
    IF next > n THEN TRUE
    ELSE IF path = <<>> THEN DFSRun(nb, n, <<next>>, next + 1)
    ELSE LET t == path[Len(path)] IN
         IF next \in nb[t] THEN DFSRun(nb, n, Append(path, next), next + 1)
         ELSE IF \E w \in nb[t] : w > next THEN FALSE
         ELSE DFSRun(nb, n, SubSeq(path, 1, Len(path) - 1), next)
IsDFSNumbering(nb, n) == DFSRun(nb, n, <<>>, 1)

(********************************** actions *********************************)
EmInit == phase = "none" /\ gn = 0 /\ ges = <<>> /\ adj = <<>> /\ num = <<>> /\ alg = "" /\ ret = 0

Load(n, es) ==
    /\ phase = "none"
    /\ SimpleEs(n, es) = TRUE
    /\ phase' = "loaded" /\ gn' = n /\ ges' = es
    /\ adj' = <<>> /\ num' = <<>> /\ alg' = "" /\ ret' = 0

\* obl: which obligations are being checked.  The answer must be one of the two legal ones,
\* and the object must be left in a depth-first numbering of the input.
EmbedRight(obl, al, r, a, ix, cert, ref, wit) ==
    /\ (r \in {OK, NONEMB} \/ obl \cap {"emb", "obs", "free", "chk", "ans"} = {})
    /\ Len(a) = gn
    /\ IsPerm(ix, gn)
    /\ LET lab == Renumber(a, ix) IN
         CASE "emb" \in obl /\ r = OK /\ al \in {"p", "d", "o"} -> GoodEmbedding(al, lab, gn, ges)
           [] "obs" \in obl /\ r = NONEMB /\ al # "d" -> GoodObstruction(al, lab, gn, ges)
           [] "obs" \in obl /\ r = NONEMB /\ al = "d" -> ObstructionPairs(al, ref, gn, ges)
           [] "free" \in obl /\ r = OK -> SuccessIsRight(al, gn, ges, cert, ref)
           [] OTHER -> TRUE
    /\ ("ans" \in obl => ~Refuted(al, r, gn, ges, wit))
    /\ "dfs" \in obl =>
         LET inv == InvPerm(ix)
             nb == NbrsOfEs(gn, [i \in 1..Len(ges) |-> <<inv[ges[i][1]], inv[ges[i][2]]>>])
         IN IsDFSNumbering(nb, gn)
Embed(obl, al, r, a, ix, cert, ref, wit) ==
    /\ phase = "loaded"
    /\ EmbedRight(obl, al, r, a, ix, cert, ref, wit) = TRUE
    /\ phase' = "done" /\ adj' = a /\ num' = ix /\ alg' = al /\ ret' = r
    /\ UNCHANGED <<gn, ges>>

Check(al, r) == phase = "done" /\ al = alg /\ r = ret /\ UNCHANGED emVars

Sort(r, a, ix) ==
    /\ phase = "done"
    /\ r = OK
    /\ ix = InvPerm(num)
    /\ a = Renumber(adj, num)
    /\ adj' = a /\ num' = ix
    /\ UNCHANGED <<phase, gn, ges, alg, ret>>

\* vis is in the current numbering; only used when that is the original one
Visible(vis) ==
    /\ phase = "done" /\ alg = "d" /\ ret = OK
    /\ VisibilityOK(gn, ges, vis) = TRUE
    /\ UNCHANGED emVars

Free == phase # "none" /\ phase' = "none" /\ gn' = 0 /\ ges' = <<>> /\ adj' = <<>> /\ num' = <<>>
        /\ alg' = "" /\ ret' = 0
=============================================================================
