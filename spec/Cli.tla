-------------------------------- MODULE Cli --------------------------------
(* The command line program as a machine over a directory of files.           *)
(* fs maps file names to their contents (sequences of character codes).       *)
(* A command reads a file, exits with a status and may write the files that   *)
(* it was told to write, and no others.  Status: 0 success / embeddable,      *)
(* 1 not embeddable, 255 error.                                               *)
EXTENDS Formats
EM == INSTANCE EmbedMachine WITH phase <- 0, gn <- 0, ges <- 0, adj <- 0, num <- 0, alg <- 0, ret <- 0
DR == INSTANCE Drawing WITH dp <- 0, dn <- 0, des <- 0, doff <- 0, dv <- 0, de <- 0, dpic <- 0

VARIABLE fs
cvars == <<fs>>
Algs == {"p", "d", "o", "2", "3", "4"}
ERR == 255

\* a program that has ended: every block released, every file closed
Released(live, open) == live = 0 /\ open = 0 /\ UNCHANGED fs

ReadFile(nm) == IF nm \in DOMAIN fs THEN Parse(fs[nm], "file") ELSE Bad
OnlyWrites(f2, W) == \A x \in (DOMAIN fs \cup DOMAIN f2) \ W : x \in DOMAIN fs /\ x \in DOMAIN f2 /\ fs[x] = f2[x]

\* the graph in a text that was read: edges u < v
Symmetric(out) == \A v \in 1..Len(out) : \A w \in Ran(out[v]) : v \in Ran(out[w])
Undir(p) == p.kind # "adj" \/ Symmetric(p.out)
OutEdges(out) == UNION {{<<v, w>> : w \in {x \in Ran(out[v]) : v < x}} : v \in 1..Len(out)}
EdgesIn(p) == IF p.kind = "adj" THEN OutEdges(p.out) ELSE p.E
EdgeSeq(p) == TLCEval(SetToSeq(EdgesIn(p)))

(* --------------------------- which answer is right ------------------------ *)
\* decided from a proof: a rotation system, an obstruction, a decomposition; the searches for
\* K2,3 and K4 are decided directly. 0 when the proof proves nothing
Truth(al, n, es, pf) ==
    CASE pf.k = "sub" -> IF EM!ObstructionPairs(al, pf.d, n, es) THEN -1 ELSE 0
      [] pf.k = "rot" /\ al \in {"p", "d", "o"} -> IF EM!GoodEmbedding(al, pf.d, n, es) THEN 1 ELSE 0
      [] pf.k = "cert" /\ al = "3" -> IF EM!K33FreeCert(n, es, pf.d) THEN 1 ELSE 0
      [] al = "4" -> IF EM!HasK4(EM!NbrsOfEs(n, es)) THEN -1 ELSE 1
      [] al = "2" -> IF EM!HasK23(EM!NbrsOfEs(n, es)) THEN -1 ELSE 1
      [] OTHER -> 0

(* ------------------------------- transform -------------------------------- *)
Transformed(fmt, p, t) ==
    CASE fmt = "a" -> LET q == ParseAdj(t) IN
                      /\ q.st = "ok" /\ q.n = p.n
                      /\ p.kind \in {"adj", "g6"} => q.zb = p.zb
                      /\ IF p.kind = "adj" THEN q.out = p.out ELSE Symmetric(q.out) /\ OutEdges(q.out) = p.E
      [] fmt = "m" -> LET q == ParseMat(t) IN q.st = "ok" /\ q.n = p.n /\ q.E = EdgesIn(p)
      [] fmt = "g" -> SameText(t, sG6 \o Enc6(p.n, EdgesIn(p)))
TransformRel(fmt, i, o, canWrite, rc, f2) ==
    LET p == ReadFile(i) IN
    /\ IF fmt \notin {"a", "m", "g"} \/ p.st = "bad" THEN rc = ERR /\ OnlyWrites(f2, {})
       ELSE /\ OnlyWrites(f2, {o})
            /\ CASE ~canWrite -> rc = ERR
                 [] p.st = "unspec" -> rc \in {0, ERR}
                 [] fmt # "a" /\ ~Undir(p) -> rc = ERR
                 [] OTHER -> rc = 0 /\ o \in DOMAIN f2 /\ Transformed(fmt, p, f2[o])
Transform(fmt, i, o, canWrite, rc, f2) == TransformRel(fmt, i, o, canWrite, rc, f2) /\ fs' = f2

(* ----------------------------- specific graph ----------------------------- *)
sDraw == <<60, 68, 114, 97, 119, 80, 108, 97, 110, 97, 114, 62>>
\* every integer of a line; a colon separates like a blank
AllInts(l) == FoldLeft(LAMBDA s, c : IF Digit(c) THEN [num |-> (IF s.num = -1 THEN 0 ELSE s.num) * 10 + (c - 48), out |-> s.out]
                                     ELSE [num |-> -1, out |-> IF s.num = -1 THEN s.out ELSE Append(s.out, s.num)],
                       [num |-> -1, out |-> <<>>], Append(l, 32)).out
\* the drawing written after the adjacency lists
Drawing(t, n, zb, m) ==
    LET ls == TLCEval(RawLines(t))
        at == {k \in 1..Len(ls) : ls[k] = sDraw}
        k0 == CHOOSE k \in at : TRUE
        nums == TLCEval([k \in 1..(n + 2 * m) |-> AllInts(ls[k0 + k])])
    IN IF Cardinality(at) # 1 THEN [ok |-> FALSE]
       ELSE IF Len(ls) < k0 + n + 2 * m + 1 THEN [ok |-> FALSE]
       ELSE IF \E k \in 1..(n + 2 * m) : Len(nums[k]) # 4 THEN [ok |-> FALSE]
       ELSE IF \E v \in 1..n : nums[v][1] # v - zb THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, v |-> [v \in 1..n |-> <<nums[v][2], nums[v][3], nums[v][4]>>],
             lines |-> [j \in 1..2 * m |-> <<nums[n + j][2], nums[n + j][3], nums[n + j][4]>>]]
HeightsOk(n, d) == /\ \A v \in 1..n : \A k \in 1..3 : d.v[v][k] >= 0
                   /\ {d.v[v][1] : v \in 1..n} = 0..(n - 1)
                   /\ \A j \in 1..Len(d.lines) : d.lines[j][2] \in 0..(n - 1) /\ d.lines[j][3] \in 0..(n - 1)
DrawingEdges(n, d) == DR!ReadEdges(n, d.v, d.lines)
DrawingOk(n, es, d) == /\ d.ok /\ HeightsOk(n, d)
                       /\ LET ee == TLCEval(DrawingEdges(n, d)) IN
                          /\ Cardinality(ee) = Len(es) /\ DR!Columns(ee) /\ DR!Represents(n, es, d.v, DR!SeqOf(ee))
Rows(t) == LET ls == RawLines(t) IN [k \in 1..Len(ls) |-> Append(ls[k], NLc)]
\* an output file in the numbering of the input
InNumbering(p, q) == q.st = "ok" /\ q.n = p.n /\ (p.kind \in {"adj", "g6"} => q.zb = p.zb)
EmbeddingFile(al, p, es, t) ==
    LET q == ParseAdj(t) IN
    /\ InNumbering(p, q) /\ EM!GoodEmbedding(al, q.out, p.n, es)
    /\ al = "d" => DrawingOk(p.n, es, Drawing(t, p.n, q.zb, Len(es)))
ObstructionFile(al, p, es, t) == LET q == ParseAdj(t) IN InNumbering(p, q) /\ EM!GoodObstruction(al, q.out, p.n, es)
RenditionFile(p, es, t, t2) ==
    LET q == ParseAdj(t) d == Drawing(t, p.n, q.zb, Len(es))
    IN Len(es) = 0 \/ DR!PictureOK(p.n, Len(es), q.zb, d.v, TLCEval(DrawingEdges(p.n, d)), Rows(t2))

\* the second output: none ("-"), by default from the name of the first (""), or named
Second(al, o, o2) == IF o2 = "" THEN (IF al = "d" THEN o \o ".render.txt" ELSE o) ELSE o2
\* can, can2: whether the first and the second output can be written
Specific(al, i, o, o2, can, can2, rc, f2, pf) ==
    LET p == ReadFile(i)
        second == Second(al, o, o2)
        \* what is written when the answer is r
        first(r) == (al \in {"p", "d", "o"} /\ r = 0) \/ (al \in {"2", "3", "4"} /\ r = 1)
        other(r) == o2 # "-" /\ ((al \in {"p", "o"} /\ r = 1) \/ (al = "d" /\ r = 0))
        wrote == (IF first(rc) THEN {o} ELSE {}) \cup (IF other(rc) THEN {second} ELSE {})
        stuck(r) == (first(r) /\ ~can) \/ (other(r) /\ ~can2)
        answer(tv) == IF tv = 1 THEN 0 ELSE 1
    IN
    /\ IF al \notin Algs \/ p.st = "bad" THEN rc = ERR /\ OnlyWrites(f2, {})
       ELSE IF p.st = "unspec" \/ ~Undir(p) THEN rc \in {0, 1, ERR} /\ OnlyWrites(f2, {o, second})
       \* an answer that cannot be written is an error
       ELSE IF rc = ERR THEN /\ LET tv == Truth(al, p.n, EdgeSeq(p), pf) IN IF tv = 0 THEN stuck(0) \/ stuck(1) ELSE stuck(answer(tv))
                             /\ OnlyWrites(f2, {o, second})
       ELSE /\ rc \in {0, 1} /\ ~stuck(rc)
            /\ OnlyWrites(f2, wrote) /\ wrote \subseteq DOMAIN f2
            /\ LET es == EdgeSeq(p) tv == Truth(al, p.n, es, pf) IN
               /\ tv # 0 => rc = answer(tv)
               /\ CASE al \in {"p", "d", "o"} /\ rc = 0 -> EmbeddingFile(al, p, es, f2[o]) /\ (al = "d" /\ second \in wrote => RenditionFile(p, es, f2[o], f2[second]))
                    [] al \in {"2", "3", "4"} /\ rc = 1 -> ObstructionFile(al, p, es, f2[o])
                    [] al \in {"p", "o"} /\ rc = 1 /\ second \in wrote -> ObstructionFile(al, p, es, f2[second])
                    [] OTHER -> TRUE
    /\ fs' = f2

(* ------------------------------ all graphs -------------------------------- *)
\* how far a graph6 text goes: lines that are read, and whether it ends in an error
Extent(t) ==
    LET ls == TLCEval(Lines(NoHeader(t)))
        o == IF ls = <<>> THEN -1 ELSE OrderOf(ls[1])
        bad == {k \in 1..Len(ls) : Dec6Line(ls[k]).st # "ok" \/ Dec6Line(ls[k]).n # o}
        k == IF bad = {} THEN Len(ls) ELSE (CHOOSE x \in bad : \A y \in bad : x <= y) - 1
    IN IF ~HeaderOk(t) \/ o = -1 THEN [k |-> 0, err |-> TRUE, open |-> FALSE, ls |-> ls]
       ELSE [k |-> k, err |-> bad # {}, ls |-> ls,
             open |-> bad # {} /\ (Dec6Line(ls[k + 1]).st = "unspec" \/ (ls[k + 1] = <<>> /\ k > 0))]
Count(ss, x) == Cardinality({k \in 1..Len(ss) : ss[k] = x})
\* ASCII of the report
sFilename == <<70, 73, 76, 69, 78, 65, 77, 69, 61, 34>>
sDuration == <<34, 32, 68, 85, 82, 65, 84, 73, 79, 78, 61, 34>>
sSuccess == <<83, 85, 67, 67, 69, 83, 83>>
sError == <<69, 82, 82, 79, 82>>
AlgCode(al) == CASE al = "p" -> 112 [] al = "d" -> 100 [] al = "o" -> 111 [] al = "2" -> 50 [] al = "3" -> 51 [] al = "4" -> 52
DurationOk(d) == /\ Len(d) >= 5 /\ d[Len(d) - 3] = 46 /\ \A k \in (1..Len(d)) \ {Len(d) - 3} : Digit(d[k])
Report(t, nm, al) ==
    LET ls == RawLines(t)
        pre == sFilename \o nm \o sDuration
        l1 == ls[1]
        w == AllInts(ls[2])
        skip == IF AlgCode(al) < 58 THEN 1 ELSE 0
        line(a, b, c, e) == <<45, AlgCode(al), 32>> \o DR!Digits(a) \o <<32>> \o DR!Digits(b) \o <<32>> \o DR!Digits(c) \o <<32>> \o e
    IN IF Len(ls) # 2 \/ t[Len(t)] # NLc THEN [ok |-> FALSE]
       ELSE IF ~StartsWith(l1, pre) \/ l1[Len(l1)] # 34 \/ ~DurationOk(SubSeq(l1, Len(pre) + 1, Len(l1) - 1)) THEN [ok |-> FALSE]
       ELSE IF Len(w) # 3 + skip THEN [ok |-> FALSE]
       ELSE LET a == w[skip + 1] b == w[skip + 2] c == w[skip + 3] IN
            IF ls[2] = line(a, b, c, sSuccess) THEN [ok |-> TRUE, read |-> a, yes |-> b, no |-> c, err |-> FALSE]
            ELSE IF ls[2] = line(a, b, c, sError) THEN [ok |-> TRUE, read |-> a, yes |-> b, no |-> c, err |-> TRUE]
            ELSE [ok |-> FALSE]
\* nm: the name of the input file, as characters; pfs: one proof per line
AllGraphsRel(al, i, nm, o, canWrite, rc, f2, pfs) ==
    /\ IF al \notin Algs \/ i \notin DOMAIN fs THEN rc = ERR /\ OnlyWrites(f2, {})
       ELSE LET x == TLCEval(Extent(fs[i])) IN
            /\ OnlyWrites(f2, {o})
            /\ IF ~canWrite THEN rc = ERR
               ELSE /\ o \in DOMAIN f2
                    /\ LET r == Report(f2[o], nm, al) IN
                       /\ r.ok
                       /\ rc = (IF r.err THEN ERR ELSE 0)
                       /\ IF x.open THEN r.read >= x.k
                          ELSE /\ r.read = x.k /\ r.err = x.err
                               /\ r.yes + r.no = x.k
                               /\ LET tv == TLCEval([k \in 1..x.k |-> LET d == Dec6Line(x.ls[k]) IN
                                                      Truth(al, d.n, EdgeSeq(d), IF k \in 1..Len(pfs) THEN pfs[k] ELSE [k |-> "none", d |-> <<>>])])
                                  IN r.yes >= Count(tv, 1) /\ r.no >= Count(tv, -1)
AllGraphs(al, i, nm, o, canWrite, rc, f2, pfs) == AllGraphsRel(al, i, nm, o, canWrite, rc, f2, pfs) /\ fs' = f2

(* --------------------------- random graphs, legacy ------------------------ *)
\* a random maximal planar graph of order n >= 3: embedded in o, itself in o2
RandomMax(n, o, o2, can, rc, f2) ==
  IF ~can THEN rc = ERR /\ OnlyWrites(f2, {o, o2}) /\ fs' = f2 ELSE
    /\ OnlyWrites(f2, {o, o2}) /\ {o, o2} \subseteq DOMAIN f2 /\ rc = 0
    /\ LET q == ParseAdj(f2[o2]) IN
       /\ q.st = "ok" /\ q.kind = "adj" /\ q.n = n /\ Symmetric(q.out)
       /\ Cardinality(OutEdges(q.out)) = (IF n = 3 THEN 3 ELSE 3 * n - 6)
       /\ EmbeddingFile("p", q, EdgeSeq(q), f2[o])
    /\ fs' = f2
\* with one more edge (n >= 5) it is not planar: o holds an obstruction
RandomNon(n, o, o2, can, rc, f2) ==
  IF ~can THEN rc = ERR /\ OnlyWrites(f2, {o, o2}) /\ fs' = f2 ELSE
    /\ OnlyWrites(f2, {o, o2}) /\ {o, o2} \subseteq DOMAIN f2 /\ rc \in {0, 1}
    /\ LET q == ParseAdj(f2[o2]) IN
       /\ q.st = "ok" /\ q.n = n /\ Symmetric(q.out)
       /\ Cardinality(OutEdges(q.out)) = 3 * n - 5
       /\ ObstructionFile("p", q, EdgeSeq(q), f2[o])
    /\ fs' = f2
\* planarity I O [-n O2]: 254 on errors
Legacy(i, o, o2, can, can2, rc, f2, pf) ==
    LET p == ReadFile(i) IN
    /\ IF p.st = "bad" THEN rc = 254 /\ OnlyWrites(f2, {})
       ELSE IF p.st = "unspec" \/ ~Undir(p) THEN rc \in {0, 254} /\ OnlyWrites(f2, {o, o2})
       ELSE LET es == EdgeSeq(p)
                tv == Truth("p", p.n, es, pf)
                yes == o \in DOMAIN f2 /\ f2[o] # <<>> /\ EmbeddingFile("p", p, es, f2[o])
                stuck(t) == IF t = 1 THEN ~can ELSE o2 # "-" /\ ~can2
            IN IF rc = 254 THEN (IF tv = 0 THEN stuck(1) \/ stuck(-1) ELSE stuck(tv)) /\ OnlyWrites(f2, {o, o2}) ELSE
               /\ rc = 0 /\ (tv # 0 => ~stuck(tv))
               /\ tv = 1 => yes
               /\ IF yes /\ OnlyWrites(f2, {o}) THEN TRUE
                  ELSE /\ tv # 1 /\ OnlyWrites(f2, {o2})
                       /\ o2 # "-" => o2 \in DOMAIN f2 /\ ObstructionFile("p", p, es, f2[o2])
    /\ fs' = f2
\* random graphs: the counts of the outcomes add up
RandomMany(k, rc, yes, minors) == rc = 0 /\ yes + FoldLeft(LAMBDA a, b : a + b, 0, minors) = k /\ UNCHANGED fs

\* arguments are missing or unknown
Usage(rc, f2) == rc = ERR /\ f2 = fs /\ UNCHANGED fs
Help(rc, f2) == rc = 0 /\ f2 = fs /\ UNCHANGED fs
CInit == fs = <<>>
CBegin(f2) == fs' = f2
\* somebody else writes a file
Put(nm, t) == fs' = [x \in DOMAIN fs \cup {nm} |-> IF x = nm THEN t ELSE fs[x]]
=============================================================================
