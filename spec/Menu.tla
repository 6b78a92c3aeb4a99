-------------------------------- MODULE Menu -------------------------------
(* A session with the menu of the command line program: a machine over the    *)
(* directory of files (Cli) and the options that the session has set.         *)
(* A choice does what its command does on the command line, on the files that *)
(* the user names, under the options in force; every other file stays as it   *)
(* was.  The session ends on request or when its input ends.                  *)
EXTENDS Cli
VARIABLES on, mode, flags
menuvars == <<fs, on, mode, flags>>
Modes == {"r", "s", "m", "n"}
CONSOLE == "<console>"
Plus(f, nm, t) == [x \in DOMAIN f \cup {nm} |-> IF x = nm THEN t ELSE f[x]]
AlgName(al) == CASE al = "p" -> "PlanarEmbed" [] al = "d" -> "DrawPlanar" [] al = "o" -> "OuterplanarEmbed"
                 [] al = "2" -> "K23Search" [] al = "3" -> "K33Search" [] al = "4" -> "K4Search"
Stay == UNCHANGED <<on, mode, flags>>

MenuInit == CInit /\ on = FALSE /\ mode = "r" /\ flags = <<"n", "n", "n", "n">>
Start == ~on /\ on' = TRUE /\ mode' = "r" /\ flags' = <<"n", "n", "n", "n">> /\ UNCHANGED fs
Configure(md, fl, f2) ==
    /\ on /\ f2 = fs /\ fs' = f2 /\ on' = on
    /\ mode' = IF md \in Modes THEN md ELSE "s"
    /\ flags' = IF md = "r" THEN fl ELSE flags

(* a name without a dot stands for a .txt file; output names are made from it *)
FullName(w, dot) == IF dot = 1 THEN w ELSE w \o ".txt"
MenuSpecific(al, w, dot, long, rc, f2, pf) ==
    /\ on /\ mode = "s" /\ Stay
    /\ IF long = 1 THEN rc = ERR /\ f2 = fs /\ UNCHANGED fs
       ELSE LET i == FullName(w, dot) o == i \o "." \o AlgName(al) \o ".out.txt"
            IN Specific(al, i, o, IF al \in {"p", "d", "o"} THEN "" ELSE "-", TRUE, TRUE, rc, f2, pf)

(* an empty output name asks for the output on the console *)
MenuTransform(fmt, i, o, can, rc, con, shown, f2) ==
    /\ on /\ Stay
    /\ IF o = "" THEN /\ f2 = fs /\ (shown = 1) = (rc = 0)
                      /\ TransformRel(fmt, i, CONSOLE, TRUE, rc, IF shown = 1 THEN Plus(f2, CONSOLE, con) ELSE f2)
       ELSE shown = 0 /\ TransformRel(fmt, i, o, can, rc, f2)
    /\ fs' = f2
MenuAll(al, i, nm, o, can, rc, con, shown, f2, pfs) ==
    /\ on /\ Stay
    /\ IF o # "" THEN shown = 0 /\ AllGraphsRel(al, i, nm, o, can, rc, f2, pfs)
       ELSE /\ f2 = fs /\ (shown = 1) = (rc = 0)
            /\ IF shown = 1 THEN AllGraphsRel(al, i, nm, CONSOLE, TRUE, rc, Plus(f2, CONSOLE, con), pfs)
               ELSE i \notin DOMAIN fs \/ (LET x == Extent(fs[i]) IN x.err \/ x.open)
    /\ fs' = f2

(* ------------------------------ random graphs ----------------------------- *)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
InDir(d, j) == d \o "/" \o ToString(j) \o ".txt"
Min2(a, b) == IF a < b THEN a ELSE b
SeqDegs(n, E) == [k \in 0..n |-> Cardinality({v \in 1..n : Cardinality({e \in E : e[1] = v \/ e[2] = v}) = k})]
\* mi: minors A to E, then E1 to E4 (E1 counted in C, E2 in A, E3 and E4 in E)
Counted(al, k, yes, mi) ==
    /\ yes \in 0..k
    /\ al \in {"p", "o"} => \A m \in 1..9 : mi[m] >= 0
    /\ al = "p" => /\ yes + Sum(SubSeq(mi, 1, 5)) = k
                   /\ mi[6] <= mi[3] /\ mi[7] <= mi[1] /\ mi[8] + mi[9] <= mi[5]
    /\ al = "o" => yes + mi[1] + mi[2] + mi[5] = k
\* what graph j of a run left behind
LeftBehind(al, j, n, f2, pf) ==
    LET want(d) == flags[d] = "y"
        nmR == InDir("random", j) nmE == InDir("embedded", j) nmO == InDir("obstructed", j) nmA == InDir("adjlist", j)
        q == TLCEval(ParseAdj(f2[nmR]))
        E == TLCEval(OutEdges(q.out))
        tv == TLCEval(Truth(al, n, SetToSeq(E), pf))
        same(nm) == IF nm \in DOMAIN fs THEN nm \in DOMAIN f2 /\ f2[nm] = fs[nm] ELSE nm \notin DOMAIN f2
    IN /\ nmR \in DOMAIN f2 /\ q.st = "ok" /\ q.n = n /\ Symmetric(q.out)
       /\ tv = -1 => same(nmE) /\ same(nmA)
       /\ tv = 1 => same(nmO)
       /\ tv = 1 /\ want(2) => /\ nmE \in DOMAIN f2
                               /\ LET m == ParseMat(f2[nmE]) IN al \in {"p", "d", "o"} => m.st = "ok" /\ m.n = n /\ SeqDegs(n, m.E) = SeqDegs(n, E)
       /\ tv = 1 /\ want(4) => /\ nmA \in DOMAIN f2
                               /\ LET a == TLCEval(ParseAdj(f2[nmA])) IN
                                  /\ al \in {"p", "d", "o"} =>
                                        /\ a.st = "ok" /\ a.n = n
                                        /\ Symmetric(a.out) /\ SeqDegs(n, OutEdges(a.out)) = SeqDegs(n, E)
                                        /\ EM!GoodEmbedding(al, a.out, n, SetToSeq(OutEdges(a.out)))
                                        /\ want(2) => ParseMat(f2[nmE]).E = OutEdges(a.out)
       /\ tv = -1 /\ want(3) /\ al \in {"p", "o"} =>
                               /\ nmO \in DOMAIN f2
                               /\ LET m == ParseMat(f2[nmO]) IN
                                  /\ m.st = "ok" /\ m.n = n
                                  /\ EM!ObstructionPairs(al, SetToSeq(m.E), n, SetToSeq(m.E))
MenuMany(al, k, n, rc, yes, mi, dirs, pfs, f2) ==
    /\ on /\ mode = "r" /\ Stay
    /\ rc = 0 /\ Counted(al, k, yes, mi)
    /\ IF dirs = 0 THEN f2 = fs
       ELSE LET D == <<"random", "embedded", "obstructed", "adjlist">>
                W == UNION {{InDir(D[d], j) : j \in 0..(Min2(k, 10) - 1)} : d \in {x \in 1..4 : flags[x] = "y"}}
                new(d) == Cardinality({j \in 0..9 : InDir(d, j) \in DOMAIN f2})
                fresh == \A d \in 1..4 : \A j \in 0..9 : InDir(D[d], j) \notin DOMAIN fs
            IN /\ OnlyWrites(f2, W)
               /\ k <= 10 /\ fresh => /\ flags[1] = "y" => new("random") = k
                                      /\ flags[2] = "y" => new("embedded") = yes
                                      /\ flags[3] = "y" => new("obstructed") = (IF al \in {"p", "o"} THEN k - yes ELSE 0)
                                      /\ flags[4] = "y" => new("adjlist") = yes
               /\ k <= 10 /\ flags[1] = "y" =>
                     /\ \A j \in 0..(k - 1) : LeftBehind(al, j, n, f2, pfs[j + 1])
    /\ fs' = f2

(* an edge list file: its name, the edges, 0 0 *)
EdgeFile(t, nm) ==
    LET ls == TLCEval(RawLines(t))
        L == Len(ls)
        nums == TLCEval([k \in 2..L |-> AllInts(ls[k])])
    IN IF L < 2 \/ t[Len(t)] # NLc THEN [ok |-> FALSE, es |-> <<>>]
       ELSE IF ls[1] # nm \/ nums[L] # <<0, 0>> \/ (\E k \in 2..L : Len(nums[k]) # 2) THEN [ok |-> FALSE, es |-> <<>>]
       ELSE [ok |-> TRUE, es |-> [k \in 1..(L - 2) |-> IF nums[k + 1][1] < nums[k + 1][2] THEN nums[k + 1] ELSE <<nums[k + 1][2], nums[k + 1][1]>>]]
SimpleOn(n, es) == /\ \A k \in 1..Len(es) : es[k][1] \in 1..n /\ es[k][2] \in 1..n /\ es[k][1] # es[k][2]
                   /\ Cardinality(Ran(es)) = Len(es)
\* the answer for a maximal planar graph of order n >= 5 (extra = 0), or one with an edge more
MaxAnswer(al, extra, rc) == CASE al \in {"p", "d"} -> rc = extra [] al = "3" -> rc = 0 \/ (extra = 1 /\ rc = 1) [] OTHER -> rc = 1
MenuOne(al, n, extra, save, rc, edges, nms, f2) ==
    /\ on /\ mode = (IF extra = 1 THEN "n" ELSE "m") /\ Stay
    /\ edges = 3 * n - 6 + extra
    /\ MaxAnswer(al, extra, rc)
    /\ LET b == IF extra = 1 THEN "nonPlanarEdgeList.txt" ELSE "maxPlanarEdgeList.txt" b2 == b \o ".out.txt" IN
       IF save = 0 THEN f2 = fs
       ELSE /\ OnlyWrites(f2, {b, b2}) /\ {b, b2} \subseteq DOMAIN f2
            /\ LET x == TLCEval(EdgeFile(f2[b], nms[1])) y == TLCEval(EdgeFile(f2[b2], nms[2])) IN
               /\ x.ok /\ SimpleOn(n, x.es) /\ Len(x.es) = edges
               /\ y.ok
               /\ rc = 0 /\ al \in {"p", "d"} => SimpleOn(n, y.es) /\ Ran(y.es) = Ran(x.es)
               /\ rc = 1 /\ al # "d" => EM!ObstructionPairs(al, y.es, n, x.es)
    /\ fs' = f2

\* help, or a letter that is no choice
Nothing(said, f2) == on /\ said = 1 /\ f2 = fs /\ UNCHANGED menuvars
\* at the user's request, or because the input ended before a command was complete
End(rc, f2) == on /\ rc = 0 /\ f2 = fs /\ on' = FALSE /\ UNCHANGED <<fs, mode, flags>>
=============================================================================
