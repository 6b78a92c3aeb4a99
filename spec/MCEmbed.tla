------------------------------- MODULE MCEmbed ------------------------------
(* Exhaustive exploration of EmbedMachine for small graphs: every loaded      *)
(* graph has exactly one legal kind of answer, and sorting loses nothing.     *)
EXTENDS EmbedMachine
CONSTANTS N, Algs, AllNumberings
Pairs == {<<a, b>> \in (1..N) \X (1..N) : a < b}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN Append(SeqOf(S \ {x}), x)
RECURSIVE SeqsOf(_)
SeqsOf(S) == IF S = {} THEN {<<>>} ELSE UNION {{Append(s, x) : s \in SeqsOf(S \ {x})} : x \in S}
RotAt(S) == IF S = {} THEN {<<>>} ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                       IN {<<m>> \o s : s \in SeqsOf(S \ {m})}
RECURSIVE RotUpTo(_, _)
RotUpTo(nbs, k) == IF k = 0 THEN {<<>>} ELSE {Append(r, s) : r \in RotUpTo(nbs, k - 1), s \in RotAt(nbs[k])}
Perms == IF AllNumberings THEN SeqsOf(1..N) ELSE {[i \in 1..N |-> i]}
SubAdjs(es) == {LET nbs == NbrsOfEs(N, SeqOf(S)) IN [v \in 1..N |-> SeqOf(nbs[v])] : S \in SUBSET Rng(es)}

Obls == {"emb", "obs", "free", "dfs"}
\* original-label candidates, renumbered by the inverse of ix
Cand(al, r) == IF r = OK THEN (IF al \in {"p", "o", "d"} THEN RotUpTo(NbrsOfEs(N, ges), N) ELSE {[v \in 1..N |-> <<>>]})
               ELSE SubAdjs(ges)
\* no K3,3 on fewer than six vertices, so a certificate is never needed here
EmbedAny == \E al \in Algs, r \in {OK, NONEMB}, ix \in Perms : \E a \in Cand(al, r) :
               LET ref == IF al = "d" /\ r = NONEMB THEN LET s == {x \in ArcsOfAdj(a) : x[1] < x[2]} IN SeqOf(s) ELSE <<>>
               IN Embed(Obls, al, r, Renumber(a, InvPerm(ix)), ix, <<[k |-> "small", v |-> [i \in 1..N |-> i], e |-> ges]>>, ref, [k |-> "none"])

Next == \/ \E S \in SUBSET Pairs : Load(N, SeqOf(S))
        \/ EmbedAny
        \/ phase = "done" /\ (Check(alg, ret) \/ Sort(OK, Renumber(adj, num), InvPerm(num)) \/ Free)
Spec == EmInit /\ [][Next]_emVars

GoodNum == phase = "done" => IsPerm(num, gn)
\* in one of the two numberings the structure is a subgraph of (for embeddings: equals) the loaded graph
Same(a) == IF ret = OK THEN ArcsOfAdj(a) = ArcsOf(ges) ELSE ArcsOfAdj(a) \subseteq ArcsOf(ges)
NothingLost == (phase = "done" /\ ~(ret = OK /\ alg \in {"2", "3", "4"}) /\ alg # "d") => Same(adj) \/ Same(Renumber(adj, num))
SortTwice == phase = "done" => /\ Renumber(Renumber(adj, num), InvPerm(num)) = adj
                               /\ InvPerm(InvPerm(num)) = num
\* never two answers for one graph
OneAnswer == phase = "loaded" => \A al \in Algs \ {"3"} :
    LET ix == [i \in 1..N |-> i]
        yes == \E a \in Cand(al, OK) : (al \in {"p", "o", "d"} /\ GoodEmbedding(al, a, gn, ges)) \/ (al \in {"2", "4"} /\ SuccessIsRight(al, gn, ges, <<>>, <<>>))
        no == \E a \in Cand(al, NONEMB) : GoodObstruction(al, a, gn, ges)
    IN yes # no
=============================================================================
