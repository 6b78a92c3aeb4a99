------------------------------ MODULE Drawing ------------------------------
(* A drawn graph, its rendition as text, its saved form, and its copies.      *)
(*                                                                            *)
(* A drawing d is a function of the graph: per vertex <<pos, start, end>>, and *)
(* a set of <<u, w, pos, start, end>> for its edges (u < w).  Vertices are     *)
(* horizontal segments, each at a height of its own; edges are vertical ones,  *)
(* each in a column of its own.  The rendition has two lines per height.       *)
EXTENDS GraphMath

VARIABLES dp,        \* "none" | "given" | "drawn"
          dn, des,   \* the graph
          doff,      \* 1 when labels count from 0
          dv, de,    \* the drawing
          dpic       \* its rendition once known
dvars == <<dp, dn, des, doff, dv, de, dpic>>

Blank == 32
Bar == 124
Dash == 45
Star == 42
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + (k % 10))

\* from arcs in both directions to edges; each edge shows the same values in both
EdgesOfArcs(arcs) == {<<MinOf(arcs[i][1], arcs[i][2]), MaxOf(arcs[i][1], arcs[i][2]), arcs[i][3], arcs[i][4], arcs[i][5]>> : i \in 1..Len(arcs)}
ArcsPaired(arcs) == \A i \in 1..Len(arcs) : \E j \in 1..Len(arcs) :
    /\ arcs[j][1] = arcs[i][2] /\ arcs[j][2] = arcs[i][1]
    /\ \A k \in 3..5 : arcs[i][k] = arcs[j][k]
\* the edges by column
Columns(ee) == {e[3] : e \in ee} = 0..(Cardinality(ee) - 1)
SeqOf(ee) == [i \in 1..Cardinality(ee) |-> CHOOSE e \in ee : e[3] = i - 1]
Represents(n, es, vv, sq) == Len(sq) = Len(es) /\ VisibilityOK(n, es, [v |-> vv, e |-> sq])

\* ------------------------------------------------------------------ the rendition
\* what a cell may hold, given the vertex x at the height, the edge with that column, and a placement k of the label
PictureOK(n, m, off, vv, ee, rows) ==
    LET at == TLCEval([p \in 0..(n - 1) |-> CHOOSE x \in 1..n : vv[x][1] = p])
        col == TLCEval([c \in 0..(m - 1) |-> CHOOSE e \in ee : e[3] = c])
        Upper(p) == LET x == at[p] s == vv[x][2] t == vv[x][3] row == rows[(2 * p) + 1] lab == Digits(x - off) l == Len(lab) IN
            /\ \A c \in (0..(m - 1)) \ (s..t) : row[c + 1] = (IF col[c][4] < p /\ p < col[c][5] THEN Bar ELSE Blank)
            /\ IF (t - s) + 1 >= l
               THEN \E k \in s..((t - l) + 1) : \A c \in s..t :
                        row[c + 1] = (IF c \in k..((k + l) - 1) THEN lab[(c - k) + 1] ELSE Dash)
               ELSE \A c \in s..t : row[c + 1] \in {Dash, Star} \cup (48..57)
        Lower(p) == LET x == at[p] s == vv[x][2] t == vv[x][3] row == rows[(2 * p) + 2] lab == Digits(x - off) l == Len(lab) IN
            \A c \in 0..(m - 1) :
                \/ row[c + 1] = (IF col[c][4] <= p /\ p < col[c][5] THEN Bar ELSE Blank)
                \/ (t - s) + 1 < l /\ c \in s..t /\ row[c + 1] = lab[l]
    IN /\ Len(rows) = 2 * n
       /\ \A r \in 1..(2 * n) : Len(rows[r]) = m + 1 /\ rows[r][m + 1] = 10
       /\ \A p \in 0..(n - 1) : Upper(p) /\ Lower(p)

\* ------------------------------------------------------------------ reading a rendition
\* the height of x, its extent and the extents of the edges are all there to see when every label fits
VertexChars == {Dash} \cup (48..57)
DecodeVertex(rows, p, m) == LET row == rows[(2 * p) + 1]
                                S == {c \in 0..(m - 1) : row[c + 1] \in VertexChars}
                            IN <<p, CHOOSE c \in S : \A d \in S : c <= d, CHOOSE c \in S : \A d \in S : c >= d>>
DecodeEdge(rows, c, n) == LET S == {p \in 0..(n - 1) : rows[(2 * p) + 2][c + 1] = Bar}
                          IN <<CHOOSE p \in S : \A q \in S : p <= q, 1 + CHOOSE p \in S : \A q \in S : p >= q>>

\* ------------------------------------------------------------------ the saved form
\* vertex lines in order, then per edge record its numbers; the records carry no end vertices,
\* and the records of the graph read back need not come in the same order
SavedEdges(order) == [i \in 1..Len(order) |-> <<order[i][3], order[i][4], order[i][5]>>]
\* the end vertices are those at the heights where the edge starts and ends
ReadEdges(n, vv, lines) == {LET x == CHOOSE v \in 1..n : vv[v][1] = lines[i][2]
                                y == CHOOSE v \in 1..n : vv[v][1] = lines[i][3]
                            IN <<MinOf(x, y), MaxOf(x, y), lines[i][1], lines[i][2], lines[i][3]>> : i \in 1..Len(lines)}

\* ------------------------------------------------------------------ actions
DInit == dp = "none" /\ dn = 0 /\ des = <<>> /\ doff = 0 /\ dv = <<>> /\ de = {} /\ dpic = <<>>
DGive(n, zero, es) == dp = "none" /\ dp' = "given" /\ dn' = n /\ des' = es /\ doff' = zero /\ dv' = <<>> /\ de' = {} /\ dpic' = <<>>
\* the embedding may leave the vertices in depth-first order: then the drawing is of the renumbered graph
DDraw(sorted, vv, arcs, m) ==
    LET ee == TLCEval(EdgesOfArcs(arcs))
        sq == TLCEval(SeqOf(ee))
        gs == IF sorted = 1 THEN des ELSE [i \in 1..m |-> <<sq[i][1], sq[i][2]>>]
    IN /\ dp = "given" /\ m = Len(des) /\ Len(arcs) = 2 * m /\ Cardinality(ee) = m
       /\ (ArcsPaired(arcs) /\ Columns(ee) /\ Represents(dn, gs, vv, sq)) = TRUE
       /\ dp' = "drawn" /\ des' = gs /\ dv' = vv /\ de' = ee /\ UNCHANGED <<dn, doff, dpic>>
DRender(ret, rows) ==
    /\ dp = "drawn" /\ ret = 1
    /\ (IF dpic # <<>> THEN rows = dpic ELSE PictureOK(dn, Len(des), doff, dv, de, rows)) = TRUE
    /\ dpic' = rows /\ UNCHANGED <<dp, dn, des, doff, dv, de>>
\* a copy carries the same drawing
DCopy(vv, arcs, ret, rows) ==
    /\ dp = "drawn" /\ vv = dv /\ Len(arcs) = 2 * Len(des)
    /\ (ArcsPaired(arcs) /\ EdgesOfArcs(arcs) = de) = TRUE
    /\ DRender(ret, rows)
\* saved and read back; a matrix does not say where labels start
DReread(mode, wret, ret, n, zero, vv, arcs, rret, rows) ==
    /\ dp = "drawn" /\ wret = 1 /\ ret = 1 /\ n = dn
    /\ zero = (IF mode = "adj" THEN doff ELSE 0)
    /\ vv = dv /\ Len(arcs) = 2 * Len(des)
    /\ (ArcsPaired(arcs) /\ EdgesOfArcs(arcs) = de) = TRUE
    /\ rret = 1
    /\ (IF dpic # <<>> /\ zero = doff THEN rows = dpic ELSE PictureOK(n, Len(des), zero, dv, de, rows)) = TRUE
    /\ doff' = zero /\ dpic' = rows /\ UNCHANGED <<dp, dn, des, dv, de>>
\* a text that lost part of the drawing is refused; other numbers may be taken, but then the
\* rendition has its size or is refused
DEdited(kind, ret, rret, size) ==
    /\ dp = "drawn" /\ ret \in {0, 1}
    /\ kind \in {"cut", "junk", "drop"} => ret = 0
    /\ IF ret = 1 /\ rret = 1 THEN size >= 0 /\ size <= (Len(des) + 1) * 2 * dn ELSE size = -1
    /\ UNCHANGED dvars
\* an edge was deleted: whether what is left can be rendered is left open
DSpoiled(ret) == dp = "drawn" /\ ret \in {0, 1} /\ UNCHANGED dvars
DFree == dp # "none" /\ dp' = "none" /\ dn' = 0 /\ des' = <<>> /\ doff' = 0 /\ dv' = <<>> /\ de' = {} /\ dpic' = <<>>
=============================================================================
