------------------------------- MODULE MCMenu ------------------------------
(* Every session of at most Steps choices over a file with a small graph.     *)
EXTENDS Menu
CONSTANTS MaxN, Steps
VARIABLES gn, gE, left
mmv == <<fs, on, mode, flags, gn, gE, left>>
Pairs(n) == {e \in (1..n) \X (1..n) : e[1] < e[2]}
Nb(n, E) == [v \in 1..n |-> SetToSeq({w \in 1..n : <<v, w>> \in E \/ <<w, v>> \in E})]
Out(fmt, p) == CASE fmt = "a" -> WriteAdj(p.n, IF p.kind = "adj" THEN p.out ELSE Nb(p.n, p.E), IF p.kind \in {"adj", "g6"} THEN p.zb ELSE 0)
                 [] fmt = "m" -> WriteMat(p.n, EdgesIn(p))
                 [] fmt = "g" -> sG6 \o Enc6(p.n, EdgesIn(p))
MInit == /\ on = FALSE /\ mode = "r" /\ flags = <<"n", "n", "n", "n">> /\ left = Steps
         /\ \E n \in 1..MaxN : \E E \in SUBSET Pairs(n) : gn = n /\ gE = E /\ fs = [x \in {"a.txt"} |-> WriteAdj(n, Nb(n, E), 0)]
Keep == UNCHANGED <<gn, gE>> /\ left' = left - 1
DoStart == Start /\ Keep
DoConf == \E md \in {"r", "s", "m", "z"} : \E fl \in {<<"y", "n", "y", "n">>, <<"n", "n", "n", "n">>} : Configure(md, fl, fs) /\ Keep
DoX == \E fmt \in {"a", "m", "g"}, i \in DOMAIN fs, o \in {"", "b.txt"} :
          LET t == Out(fmt, ReadFile(i)) IN
          MenuTransform(fmt, i, o, TRUE, 0, IF o = "" THEN t ELSE <<>>, IF o = "" THEN 1 ELSE 0, IF o = "" THEN fs ELSE Plus(fs, o, t)) /\ Keep
\* a searcher for K4 that is right, and one that claims the opposite
None == [k |-> "none", d |-> <<>>]
DoS == \E rc \in {0, 1} : \E sub \in (IF rc = 0 THEN {<<>>} ELSE {WriteAdj(gn, Nb(gn, gE), 0)}) :
          /\ Cardinality(gE) \in {0, 6}
          /\ MenuSpecific("4", "a", 0, 0, rc, IF rc = 0 THEN fs ELSE Plus(fs, "a.txt.K4Search.out.txt", sub), None) /\ Keep
DoHelp == Nothing(1, fs) /\ Keep
DoEnd == End(0, fs) /\ Keep
MNext == left > 0 /\ (DoStart \/ DoConf \/ DoX \/ DoS \/ DoHelp \/ DoEnd)
MSpec == MInit /\ [][MNext]_mmv
KeepsGraph == \A x \in DOMAIN fs : LET p == Parse(fs[x], "file") IN p.st = "ok" /\ p.n = gn /\ Undir(p) /\ EdgesIn(p) = gE
RightAnswer == "a.txt.K4Search.out.txt" \in DOMAIN fs => gn = 4 /\ Cardinality(gE) = 6
TypeOK == mode \in Modes /\ \A k \in 1..4 : flags[k] \in {"y", "n"}
\* nothing happens outside a session, and options change only on request
Closed == [][(~on /\ ~on') => UNCHANGED fs]_mmv
OptionsStick == [][(mode' # mode \/ flags' # flags) => (on # on' \/ fs' = fs)]_mmv
SpecificOnlyWhenAsked == [][("a.txt.K4Search.out.txt" \in DOMAIN fs' \ DOMAIN fs) => mode = "s"]_mmv
=============================================================================
