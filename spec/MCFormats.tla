----------------------------- MODULE MCFormats ------------------------------
(* The formats and iterators checked on all small graphs:                     *)
(* every format reads back what it writes, damaged graph6 lines never decode  *)
(* to the same graph, and a reader started on what a writer wrote delivers    *)
(* exactly the written graphs.                                                *)
EXTENDS G6Iter
CONSTANTS N, K      \* graphs up to order N; iterations of up to K graphs of order 3
Pairs(n) == {<<u, v>> \in (1..n) \X (1..n) : u < v}
Perms(S) == {p \in [1..Cardinality(S) -> S] : Ran(p) = S}
\* some order of a neighbour set, up and down
Up(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Down(S) == SetToSortSeq(S, LAMBDA a, b : a > b)
Nb(A, v) == {a[2] : a \in {x \in A : x[1] = v}}
Arcs(n) == {<<u, v>> \in (1..n) \X (1..n) : u # v}
\* adjacency lists: every digraph, lists in both directions and both bases
AdjRoundTrip == \A n \in 1..(IF N < 4 THEN N ELSE 4) : \A A \in SUBSET Arcs(n) : \A zb \in {0, 1} :
    LET out == [v \in 1..n |-> IF (v + zb) % 2 = 0 THEN Up(Nb(A, v)) ELSE Down(Nb(A, v))]
        p == ParseAdj(WriteAdj(n, out, zb))
    IN p.st = "ok" /\ p.n = n /\ p.zb = zb /\ p.out = out
MatRoundTrip == \A n \in 1..N : \A E \in SUBSET Pairs(n) : LET p == ParseMat(WriteMat(n, E)) IN p.st = "ok" /\ p.n = n /\ p.E = E
G6RoundTrip == \A n \in 1..N : \A E \in SUBSET Pairs(n) : LET p == Dec6(Enc6(n, E)) IN p.st = "ok" /\ p.n = n /\ p.E = E
\* a prefix of a text is a text of the format only if it has everything that counts
AdjPrefixes == \A n \in 1..3 : \A A \in SUBSET Arcs(n) :
    LET t == WriteAdj(n, [v \in 1..n |-> Up(Nb(A, v))], 0)
    IN \A k \in 0..Len(t) - 2 : LET p == Parse(SubSeq(t, 1, k), "file") IN p.st # "ok"
G6Damage == \A n \in 1..(IF N < 4 THEN N ELSE 4) : \A E \in SUBSET Pairs(n) :
    LET l == Enc6(n, E) IN
    /\ \A j \in 1..Len(l) : \A c \in {10, 32, 62, 63, 64, 95, 126, 127} \ {l[j]} :
           LET d == Dec6([l EXCEPT ![j] = c]) IN d.st = "bad" \/ d.n # n \/ d.E # E
    /\ \A k \in 0..Len(l) - 1 : Dec6(SubSeq(l, 1, k)).st = "bad"
    /\ Dec6(Append(l, 63)).st = "bad"
Theorems == AdjRoundTrip /\ MatRoundTrip /\ G6RoundTrip /\ AdjPrefixes /\ G6Damage
ASSUME Theorems
\* the published examples of the graph6 description: order 5 with edges 02 04 13 34; orders 30, 12345
ASSUME Enc6(5, {<<1, 3>>, <<1, 5>>, <<2, 4>>, <<4, 5>>}) = <<68, 81, 99>>
ASSUME OrderText(30) = <<93>> /\ OrderText(12345) = <<126, 66, 63, 120>>

\* iterators: write up to K graphs, then read them
VARIABLES sent, got
G3 == SUBSET Pairs(3)
AsLists(E) == [v \in 1..3 |-> LET s == Up({w \in 1..3 : <<v, w>> \in E \/ <<w, v>> \in E}) IN [j \in 1..Len(s) |-> <<s[j], 0>>]]
MInit == rd = NoReader /\ wr = NoWriter /\ sent = <<>> /\ got = <<>>
MNext ==
    \/ \E had \in {wr.ph # "none"} : \E ret \in {0, 1}, n \in {0, 3} : WAlloc(n, had, ret, ret = 1 \/ had) /\ UNCHANGED <<rd, sent, got>>
    \/ \E ret \in {0, 1} : WBegin(ret) /\ UNCHANGED <<rd, sent, got>>
    \/ \E ret \in {0, 1}, E \in G3 : Len(sent) < K /\ WWrite(AsLists(E), ret, Len(wr.out) + ret) /\ UNCHANGED <<rd, got>> /\ sent' = IF ret = 1 THEN Append(sent, E) ELSE sent
    \/ WEnd(1, WText) /\ UNCHANGED <<rd, sent, got>>
    \/ wr.ph = "ended" /\ rd.ph = "none" /\ RAlloc(TRUE, FALSE, 1, TRUE) /\ UNCHANGED <<wr, sent, got>>
    \/ \E ret \in {0, 1}, n0 \in {0, 3, 4} : wr.ph = "ended" /\ RBegin(WText, n0, ret) /\ UNCHANGED <<wr, sent, got>>
    \/ \E ret \in {0, 1}, E \in G3, e \in BOOLEAN : RRead(ret, rd.k + (IF e THEN 0 ELSE ret), e, 3, AsLists(E)) /\ UNCHANGED <<wr, sent>>
           /\ got' = IF rd.ph = "begun" /\ ~rd.dead /\ ret = 1 /\ ~e THEN Append(got, E) ELSE got
    \/ rd.ph # "none" /\ REnd(1) /\ UNCHANGED <<wr, sent, got>>
MSpec == MInit /\ [][MNext]_<<rd, wr, sent, got>>
Delivered == /\ Len(got) <= Len(sent) /\ \A j \in 1..Len(got) : got[j] = sent[j]
             /\ (rd.ph = "begun" /\ rd.dead => got = sent)
Counts == Len(wr.out) <= K /\ rd.k <= Len(rd.lines)
=============================================================================
