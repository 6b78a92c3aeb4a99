------------------------------ MODULE Formats -------------------------------
(* The graph file formats, as functions between texts (sequences of character *)
(* codes) and graphs.  Each reader is an automaton over the characters that   *)
(* ends in "ok" with a graph, in "bad" when the text is not a graph of the    *)
(* format, or in "unspec" where the format documentation leaves the outcome   *)
(* open (loops and repeated neighbours, signs, unusual separators).           *)
(* Vertices are 1..n here; graph6 and zero-based lists count from 0.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Digit(c) == c \in 48..57
WS == {32} \cup 9..13
NLc == 10
CRc == 13
Big == 1000000
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
sLEDA == <<76, 69, 68, 65, 46, 71, 82, 65, 80, 72>>
sN == <<78, 61>>
sG6 == <<62, 62, 103, 114, 97, 112, 104, 54, 60, 60>>
Bad == [st |-> "bad"]
Unspec == [st |-> "unspec"]
Ran(s) == {s[i] : i \in 1..Len(s)}
NatText(k) == IF k < 10 THEN <<48 + k>> ELSE IF k < 100 THEN <<48 + (k \div 10), 48 + (k % 10)>>
              ELSE <<48 + (k \div 100), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* ------------------------------ adjacency list ---------------------------- *)
\* num = -1: no digit yet
A0 == [ph |-> "N", num |-> -1, neg |-> FALSE, n |-> 0, v |-> 1, zb |-> 0, out |-> <<>>, cur |-> <<>>]
AVal(s) == IF s.neg THEN 0 - s.num ELSE s.num
AGo(s, ph) == [s EXCEPT !.ph = ph, !.num = -1, !.neg = FALSE]
\* a number has been read completely
ADone(s) ==
    IF s.num = -1 THEN AGo(s, "bad")
    ELSE IF s.num > Big THEN AGo(s, "unspec")
    ELSE CASE s.ph = "n" -> IF AVal(s) < 1 THEN AGo(s, "bad") ELSE AGo([s EXCEPT !.n = AVal(s)], "label?")
           [] s.ph = "label" -> LET z == IF s.v = 1 /\ AVal(s) = 0 THEN 1 ELSE s.zb
                                IN IF AVal(s) + z # s.v THEN AGo(s, "bad") ELSE AGo([s EXCEPT !.zb = z], "colon")
           [] s.ph = "nbr" -> LET w == AVal(s) + s.zb
                              IN IF w < 1 THEN AGo([s EXCEPT !.out = Append(@, s.cur), !.cur = <<>>, !.v = @ + 1], IF s.v = s.n THEN "done" ELSE "label?")
                                 ELSE IF w > s.n THEN AGo(s, "bad")
                                 ELSE IF w = s.v \/ w \in Ran(s.cur) THEN AGo(s, "unspec")
                                 ELSE AGo([s EXCEPT !.cur = Append(@, w)], "nbr?")
\* one character, outside of a number
ASkip(s, c, into) == IF c \in WS THEN s
                     ELSE IF Digit(c) THEN [s EXCEPT !.ph = into, !.num = c - 48]
                     ELSE IF c = 45 THEN [s EXCEPT !.ph = into, !.neg = TRUE]
                     ELSE IF c = 43 THEN AGo(s, "unspec") ELSE AGo(s, "bad")
AOut(s, c) ==
    CASE s.ph = "N" -> IF c = 78 THEN AGo(s, "=") ELSE AGo(s, "bad")
      [] s.ph = "=" -> IF c = 61 THEN AGo(s, "n?") ELSE AGo(s, "bad")
      [] s.ph = "n?" -> ASkip(s, c, "n")
      [] s.ph = "label?" -> ASkip(s, c, "label")
      [] s.ph = "nbr?" -> ASkip(s, c, "nbr")
      [] s.ph = "colon" -> IF c = 58 THEN AGo(s, "nbr?") ELSE AGo(s, "unspec")
      [] OTHER -> s          \* done, bad, unspec
AStep(s, c) == IF s.ph \in {"n", "label", "nbr"}
               THEN IF Digit(c) THEN [s EXCEPT !.num = IF @ > Big THEN @ ELSE (IF @ = -1 THEN 0 ELSE @) * 10 + (c - 48)]
                    ELSE AOut(ADone(s), c)
               ELSE AOut(s, c)
ParseAdj(t) == LET e == FoldLeft(AStep, A0, t)
                   s == IF e.ph \in {"n", "label", "nbr"} THEN ADone(e) ELSE e
               IN IF s.ph = "done" THEN [st |-> "ok", kind |-> "adj", n |-> s.n, zb |-> s.zb, out |-> s.out]
                  ELSE IF s.ph = "unspec" THEN Unspec ELSE Bad
\* the text that is written for the lists `out` (of the neighbours that an arc leads to)
WriteAdj(n, out, zb) ==
    sN \o NatText(n) \o <<NLc>> \o
    Cat([v \in 1..n |-> NatText(v - zb) \o <<58>> \o Cat([i \in 1..Len(out[v]) |-> <<32>> \o NatText(out[v][i] - zb)])
                        \o (IF zb = 1 THEN <<32, 45, 49>> ELSE <<32, 48>>) \o <<NLc>>])

(* ---------------------------- adjacency matrix ---------------------------- *)
MStep(s, c) ==
    IF s.ph = "n" THEN IF Digit(c) THEN [s EXCEPT !.n = IF @ > Big THEN @ ELSE @ * 10 + (c - 48)]
                       ELSE LET r == [s EXCEPT !.ph = IF s.n > 2000 THEN "unspec" ELSE "flags"]
                            IN IF r.ph = "flags" /\ s.n * (s.n - 1) > 0
                               THEN IF c \in WS THEN r ELSE [r EXCEPT !.ph = "bad"] ELSE r
    ELSE IF s.ph = "flags" /\ 2 * Len(s.f) < s.n * (s.n - 1)
         THEN IF c \in WS THEN s ELSE IF c \in {48, 49} THEN [s EXCEPT !.f = Append(@, c - 48)]
              ELSE [s EXCEPT !.ph = IF Digit(c) THEN "unspec" ELSE "bad"]
    ELSE s
\* the flags come row by row: (1,2) (1,3) ... (1,n) (2,3) ...
FlagIndex(n, u, v) == (u - 1) * n - (u * (u - 1)) \div 2 + (v - u)
ParseMat(t) == LET s == FoldLeft(MStep, [ph |-> "n", n |-> 0, f |-> <<>>], t)
               IN IF s.ph = "unspec" \/ s.n > 2000 THEN Unspec
                  ELSE IF s.n < 1 \/ s.ph = "bad" \/ 2 * Len(s.f) < s.n * (s.n - 1) THEN Bad
                  ELSE [st |-> "ok", kind |-> "mat", n |-> s.n,
                        E |-> UNION {{<<u, v>> : v \in {w \in u + 1..s.n : s.f[FlagIndex(s.n, u, w)] = 1}} : u \in 1..s.n}]
WriteMat(n, E) == NatText(n) \o <<NLc>> \o
    Cat([u \in 1..n |-> [i \in 1..u |-> 32] \o [i \in 1..n - u |-> IF <<u, u + i>> \in E THEN 49 ELSE 48] \o <<NLc>>])

(* --------------------------------- graph6 --------------------------------- *)
PairCount(n) == (n * (n - 1)) \div 2
BodyLen(n) == (PairCount(n) + 5) \div 6
OrderText(n) == IF n < 63 THEN <<63 + n>> ELSE <<126, 63 + (n \div 4096), 63 + ((n \div 64) % 64), 63 + (n % 64)>>
BitOf(u, v) == ((v - 1) * (v - 2)) \div 2 + (u - 1)     \* of the pair u < v
\* the line for the graph of order n with edges E (pairs u < v)
Enc6(n, E) == LET B == {BitOf(e[1], e[2]) : e \in E}
                  bit(k, w) == IF k \in B THEN w ELSE 0
              IN OrderText(n) \o [i \in 1..BodyLen(n) |->
                    63 + bit(6*i - 6, 32) + bit(6*i - 5, 16) + bit(6*i - 4, 8) + bit(6*i - 3, 4) + bit(6*i - 2, 2) + bit(6*i - 1, 1)]
Pow2 == <<1, 2, 4, 8, 16, 32>>
\* order of a graph from the start of a line: -1 when malformed
OrderOf(l) == IF l = <<>> THEN -1
              ELSE IF l[1] \in 64..125 THEN l[1] - 63
              ELSE IF l[1] # 126 \/ Len(l) < 4 THEN -1
              ELSE IF l[2] \notin 63..125 \/ l[3] \notin 63..126 \/ l[4] \notin 63..126 THEN -1
              ELSE LET n == (l[2] - 63) * 4096 + (l[3] - 63) * 64 + (l[4] - 63) IN IF n < 63 \/ n > 100000 THEN -1 ELSE n
OrderChars(n) == IF n < 63 THEN 1 ELSE 4
Dec6(l) == LET n == OrderOf(l)
               b == SubSeq(l, OrderChars(n) + 1, Len(l))
               bit(k) == ((b[(k \div 6) + 1] - 63) \div Pow2[6 - (k % 6)]) % 2
           IN IF n = -1 THEN Bad
              ELSE IF n > 30000 THEN (IF Len(b) < 1000000 THEN Bad ELSE Unspec)
              ELSE IF Len(b) # BodyLen(n) THEN Bad
              ELSE IF \E i \in 1..Len(b) : b[i] \notin 63..126 THEN Bad
              ELSE IF \E k \in PairCount(n)..6 * Len(b) - 1 : bit(k) = 1 THEN Bad
              ELSE [st |-> "ok", kind |-> "g6", n |-> n, zb |-> 1,
                    E |-> UNION {{<<u, v>> : u \in {w \in 1..v - 1 : bit(BitOf(w, v)) = 1}} : v \in 1..n}]
\* lines of a text; a carriage return in front of the newline (or the end) belongs to the line end
NewLines(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = NLc)
RawLines(t) == LET p == <<0>> \o NewLines(t)
                   q == IF Len(t) > 0 /\ t[Len(t)] # NLc THEN Append(p, Len(t) + 1) ELSE p
               IN [i \in 1..Len(q) - 1 |-> SubSeq(t, q[i] + 1, q[i + 1] - 1)]
ChopCR(l) == IF Len(l) > 0 /\ l[Len(l)] = CRc THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Lines(t) == LET r == RawLines(t) IN [i \in 1..Len(r) |-> ChopCR(r[i])]
HeaderOk(t) == t = <<>> \/ t[1] # 62 \/ StartsWith(t, sG6)
NoHeader(t) == IF StartsWith(t, sG6) THEN SubSeq(t, Len(sG6) + 1, Len(t)) ELSE t
Dec6Line(l) == IF CRc \in Ran(l) THEN Unspec ELSE Dec6(l)
ParseG6(t) == IF ~HeaderOk(t) THEN Bad
              ELSE LET ls == Lines(NoHeader(t)) IN IF ls = <<>> THEN Bad ELSE Dec6Line(ls[1])

(* ------------------------------- debugging dump --------------------------- *)
\* the integers of a line; whatever else it says separates them
DumpInts(l) == FoldLeft(LAMBDA s, c : IF c \in 48..57 THEN [num |-> (IF s.num = -1 THEN 0 ELSE s.num) * 10 + (c - 48), out |-> s.out]
                                      ELSE [num |-> -1, out |-> IF s.num = -1 THEN s.out ELSE Append(s.out, s.num)],
                        [num |-> -1, out |-> <<>>], Append(l, 32)).out
\* the letter after "type="
DumpType(l) == LET at == {k \in 6..Len(l) - 1 : SubSeq(l, k - 4, k) = <<116, 121, 112, 101, 61>>} IN IF Cardinality(at) # 1 THEN 0 ELSE l[(CHOOSE k \in at : TRUE) + 1]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
\* a header, a line per vertex and per root copy with its arcs, two tables: everything that the
\* accessors say about the graph (d), and nothing else
DumpOk(d, t) ==
    LET ls == TLCEval(RawLines(t))
        n == d.n nw == Len(d.w) ne == Len(d.e)
        at(k) == DumpInts(ls[k])
        line(k) == <<d.v[k][1], d.v[k][2], d.v[k][3], d.v[k][4], d.v[k][5]>> \o Flat(d.adj[k]) \o <<d.nil>>
        wline(k) == <<d.w[k][1], d.w[k][2], d.w[k][3]>> \o Flat(d.wadj[k]) \o <<d.nil>>
        b == 1 + n + nw + 2
        c == b + n + nw + 2
    IN /\ IF d.more = 1 THEN Len(ls) >= c + ne ELSE Len(ls) = c + ne   \* a feature may add what it knows
       /\ at(1) = <<n, d.m>>
       /\ \A k \in 1..n : at(1 + k) = line(k)
       /\ \A k \in 1..nw : at(1 + n + k) = wline(k)
       /\ \A k \in 1..n : at(b + k) = <<d.v[k][1], d.v[k][5], d.v[k][7], d.v[k][8]>> /\ DumpType(ls[b + k]) = d.v[k][6]
       /\ \A k \in 1..nw : at(b + n + k) = <<d.w[k][1], d.w[k][2], d.w[k][4], d.w[k][5]>> /\ DumpType(ls[b + n + k]) = 88
       /\ \A k \in 1..ne : at(c + k) = <<d.e[k][1], d.e[k][2], d.e[k][4], d.e[k][5]>> /\ DumpType(ls[c + k]) = d.e[k][3]

(* ---------------------------------- LEDA ---------------------------------- *)
\* the leading integers of a line (at most two); any sign but a minus is left open
IStep(s, c) == IF s.stop THEN s
               ELSE IF Digit(c) THEN [s EXCEPT !.num = IF @ > Big THEN @ ELSE (IF @ = -1 THEN 0 ELSE @) * 10 + (c - 48)]
               ELSE LET d == IF s.num # -1 THEN [s EXCEPT !.out = Append(@, IF s.neg THEN 0 - s.num ELSE s.num), !.num = -1, !.neg = FALSE]
                             ELSE IF s.neg THEN [s EXCEPT !.stop = TRUE] ELSE s
                    IN IF d.stop \/ c \in WS THEN d
                       ELSE IF c = 45 THEN [d EXCEPT !.neg = TRUE]
                       ELSE [d EXCEPT !.stop = TRUE, !.odd = (c = 43)]
Ints(l) == LET e == FoldLeft(IStep, [num |-> -1, neg |-> FALSE, out |-> <<>>, stop |-> FALSE, odd |-> FALSE], l)
           IN [out |-> IF ~e.stop /\ e.num # -1 THEN Append(e.out, IF e.neg THEN 0 - e.num ELSE e.num) ELSE e.out, odd |-> e.odd]
ParseLEDA(t) ==
    LET ls == RawLines(t)
        first(k) == IF k > Len(ls) THEN <<>> ELSE Ints(ls[k]).out
    IN IF \E i \in 1..Len(ls) : Len(ls[i]) > 250 \/ Ints(ls[i]).odd \/ (\E x \in Ran(Ints(ls[i]).out) : x > 100000) THEN Unspec
       ELSE IF Len(ls) < 4 \/ first(4) = <<>> THEN Bad
       ELSE LET n == first(4)[1] IN
            IF n < 1 \/ first(5 + n) = <<>> THEN Bad
            ELSE LET m == first(5 + n)[1]
                     pair(i) == first(5 + n + i)
                 IN IF m < 0 \/ (\E i \in 1..m : Len(pair(i)) < 2) THEN Bad
                    ELSE IF \E i \in 1..m : pair(i)[1] \notin 1..n \/ pair(i)[2] \notin 1..n THEN Bad
                    ELSE [st |-> "ok", kind |-> "leda", n |-> n,
                          E |-> {IF pair(i)[1] < pair(i)[2] THEN <<pair(i)[1], pair(i)[2]>> ELSE <<pair(i)[2], pair(i)[1]>> :
                                 i \in {j \in 1..m : pair(j)[1] # pair(j)[2]}}]

(* ------------------------------ format by content ------------------------- *)
\* via "string" excludes LEDA
Parse(t, via) == IF t = <<>> THEN Bad
                 ELSE IF StartsWith(t, sLEDA) THEN IF via = "string" THEN Bad ELSE ParseLEDA(t)
                 ELSE IF StartsWith(t, sN) THEN ParseAdj(t)
                 ELSE IF Digit(t[1]) THEN ParseMat(t)
                 ELSE ParseG6(t)

(* ------------------- graphs as the interface shows them ------------------- *)
\* lists[v] = entries <<neighbour, d>> of v in list order, d = 0 undirected, 1 the arc leads to v only, 2 from v only
OutLists(lists) == [v \in 1..Len(lists) |-> LET s == SelectSeq(lists[v], LAMBDA x : x[2] # 1) IN [i \in 1..Len(s) |-> s[i][1]]]
Undirected(lists) == \A v \in 1..Len(lists) : \A i \in 1..Len(lists[v]) : lists[v][i][2] = 0
EdgesOf(lists) == UNION {{<<v, lists[v][i][1]>> : i \in {j \in 1..Len(lists[v]) : lists[v][j][1] > v}} : v \in 1..Len(lists)}
\* both ends of every edge agree
Paired(lists) == \A v \in 1..Len(lists) : \A i \in 1..Len(lists[v]) :
    LET w == lists[v][i][1] d == lists[v][i][2]
    IN w \in 1..Len(lists) /\ w # v /\ Cardinality({j \in 1..Len(lists[w]) : lists[w][j] = <<v, IF d = 0 THEN 0 ELSE 3 - d>>}) = 1
\* lists of a graph that was read from the arc lists `out`
FromOut(lists, out) == /\ OutLists(lists) = out
                       /\ Paired(lists)
                       /\ \A v \in 1..Len(out) : \A i \in 1..Len(lists[v]) :
                              LET w == lists[v][i][1] IN lists[v][i][2] = (IF w \in Ran(out[v]) THEN IF v \in Ran(out[w]) THEN 0 ELSE 2 ELSE 1)
FromEdges(lists, E) == /\ Undirected(lists) /\ Paired(lists) /\ EdgesOf(lists) = E

ReadOk(t, via, ret, n, lists, zb) ==
    LET p == Parse(t, via) IN
    CASE p.st = "bad" -> ret # 1
      [] p.st = "unspec" -> TRUE
      [] p.st = "ok" /\ p.kind = "adj" -> ret = 1 /\ n = p.n /\ zb = p.zb /\ FromOut(lists, p.out)
      [] p.st = "ok" /\ p.kind = "g6" -> ret = 1 /\ n = p.n /\ zb = 1 /\ FromEdges(lists, p.E)
      [] OTHER -> ret = 1 /\ n = p.n /\ FromEdges(lists, p.E)
\* up to one newline at the end
SameText(t, u) == t = u \/ t = Append(u, NLc)
\* a search that finds nothing may leave edges at vertices that are not the graph's: no format expresses them
Stray(lists) == \E v \in 1..Len(lists) : \E k \in 1..Len(lists[v]) : lists[v][k][1] \notin 1..Len(lists)
WriteOk(mode, lists, zb, ret, t) ==
    LET n == Len(lists) IN
    CASE Stray(lists) -> mode = "adj" \/ ret # 1
      [] mode = "adj" -> ret = 1 /\ LET p == ParseAdj(t) IN p.st = "ok" /\ p.n = n /\ p.zb = zb /\ p.out = OutLists(lists)
      [] mode = "mat" -> IF Undirected(lists) THEN ret = 1 /\ (LET p == ParseMat(t) IN p.st = "ok" /\ p.n = n /\ p.E = EdgesOf(lists)) ELSE ret # 1
      [] mode = "g6" -> IF Undirected(lists) THEN ret = 1 /\ SameText(t, sG6 \o Enc6(n, EdgesOf(lists))) ELSE ret # 1
=============================================================================
