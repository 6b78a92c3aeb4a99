------------------------------- MODULE MCCli -------------------------------
(* All chains of transformations of a file with a small graph, and all-graphs *)
(* runs over small files.  A writer that conforms to Cli never changes the    *)
(* graph; the totals of a file are those of any reordering of it.             *)
EXTENDS Cli
CONSTANTS MaxN, Len6
VARIABLES gn, gE, hist
mv == <<fs, gn, gE, hist>>
Pairs(n) == {e \in (1..n) \X (1..n) : e[1] < e[2]}
Nb(n, E) == [v \in 1..n |-> SetToSeq({w \in 1..n : <<v, w>> \in E \/ <<w, v>> \in E})]
Names == {"a", "b"}
Texts(n, E) == {WriteAdj(n, Nb(n, E), 0), WriteAdj(n, Nb(n, E), 1), WriteMat(n, E), sG6 \o Enc6(n, E)}
MInit == \E n \in 1..MaxN : \E E \in SUBSET Pairs(n) : \E t \in Texts(n, E) :
            gn = n /\ gE = E /\ fs = [x \in {"a"} |-> t] /\ hist = "x"
Out(fmt, p) == CASE fmt = "a" -> WriteAdj(p.n, IF p.kind = "adj" THEN p.out ELSE Nb(p.n, p.E), IF p.kind \in {"adj", "g6"} THEN p.zb ELSE 0)
                 [] fmt = "m" -> WriteMat(p.n, EdgesIn(p))
                 [] fmt = "g" -> sG6 \o Enc6(p.n, EdgesIn(p))
DoX == \E fmt \in {"a", "m", "g"}, i \in DOMAIN fs, o \in Names :
          /\ hist = "x"
          /\ Transform(fmt, i, o, TRUE, 0, [x \in DOMAIN fs \cup {o} |-> IF x = o THEN Out(fmt, ReadFile(i)) ELSE fs[x]])
          /\ UNCHANGED <<gn, gE, hist>>
\* the totals of a file: an all-graphs run with the right report is accepted, with any other total it is not
Lines6(ss) == sG6 \o FoldLeft(LAMBDA a, b : a \o b \o <<NLc>>, <<>>, ss)
None == [k |-> "none", d |-> <<>>]
TrueTotal(al, n, Es) == Cardinality({k \in 1..Len(Es) : Truth(al, n, SetToSeq(Es[k]), None) = 1})
Rep(al, a, b, c) == sFilename \o <<97>> \o sDuration \o <<48, 46, 48, 48, 48, 34, NLc>> \o
                    <<45, AlgCode(al), 32>> \o DR!Digits(a) \o <<32>> \o DR!Digits(b) \o <<32>> \o DR!Digits(c) \o <<32>> \o sSuccess \o <<NLc>>
ToT == /\ hist = "x" /\ gn = 4
       /\ \E E2 \in SUBSET Pairs(4) : fs' = [x \in {"a"} |-> Lines6(<<Enc6(4, gE), Enc6(4, E2), Enc6(4, gE)>>)]
       /\ hist' = "t" /\ UNCHANGED <<gn, gE>>
DoT == /\ hist = "t"
       /\ \E al \in {"2", "4"}, yes \in 0..3 :
             AllGraphs(al, "a", <<97>>, "r", TRUE, 0, [x \in {"a", "r"} |-> IF x = "a" THEN fs["a"] ELSE Rep(al, 3, yes, 3 - yes)], <<>>)
             /\ hist' = al
       /\ UNCHANGED <<gn, gE>>
MNext == DoX \/ ToT \/ DoT
MSpec == MInit /\ [][MNext]_mv
KeepsGraph == hist = "x" => \A x \in DOMAIN fs : LET p == Parse(fs[x], "file") IN p.st = "ok" /\ p.n = gn /\ Undir(p) /\ EdgesIn(p) = gE
Totals == hist \in {"2", "4"} =>
    LET x == Extent(fs["a"])
        Es == [k \in 1..3 |-> Dec6Line(x.ls[k]).E]
        r == Report(fs["r"], <<97>>, hist)
    IN /\ r.read = 3 /\ r.yes = TrueTotal(hist, gn, Es)
       /\ r.yes = TrueTotal(hist, gn, <<Es[3], Es[1], Es[2]>>)
       /\ (r.yes < 3 => hist = "4" /\ \E k \in 1..3 : Cardinality(Es[k]) = 6)
=============================================================================
