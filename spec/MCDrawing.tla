----------------------------- MODULE MCDrawing -----------------------------
(* All drawings of all small graphs: every order of heights and columns and   *)
(* every extent of the vertices.  Checked: the rendition shows the whole      *)
(* drawing (it can be read off again), and the saved numbers determine the    *)
(* edges they belong to, whatever the order of the edge records when the      *)
(* drawing was written.                                                       *)
EXTENDS Drawing
CONSTANTS N, M
V == 1..N
Pairs == {<<a, b>> \in V \X V : a < b}
Perms(S, k) == {f \in [1..k -> S] : \A i, j \in 1..k : (i # j) => f[i] # f[j]}
Lt(p, q) == (p[1] < q[1]) \/ (p[1] = q[1] /\ p[2] < q[2])
Graphs == {g \in UNION {Perms(Pairs, k) : k \in 1..M} : \A i \in 1..(Len(g) - 1) : Lt(g[i], g[i + 1])}
Drawing(g, hs, cs, lo, hi) ==
    [v |-> [x \in V |-> <<hs[x], lo[x], hi[x]>>],
     e |-> [i \in 1..Len(g) |-> <<g[i][1], g[i][2], cs[i], MinOf(hs[g[i][1]], hs[g[i][2]]), MaxOf(hs[g[i][1]], hs[g[i][2]])>>]]
Arcs(e) == e \o [i \in 1..Len(e) |-> <<e[i][2], e[i][1], e[i][3], e[i][4], e[i][5]>>]
Ranges(m) == {<<a, b>> \in (0..(m - 1)) \X (0..(m - 1)) : a <= b}

\* one rendition, as the code makes it
Rendered(n, m, off, vv, ee) ==
    LET at(p) == CHOOSE x \in 1..n : vv[x][1] = p
        edge(c) == CHOOSE e \in ee : e[3] = c
        Row(p) == LET x == at(p) IN [c \in 1..(m + 1) |-> IF c = m + 1 THEN 10
                     ELSE IF c - 1 = (vv[x][2] + vv[x][3]) \div 2 THEN 48 + (x - off)
                     ELSE IF vv[x][2] <= c - 1 /\ c - 1 <= vv[x][3] THEN Dash
                     ELSE IF edge(c - 1)[4] < p /\ p < edge(c - 1)[5] THEN Bar ELSE Blank]
        Gap(p) == [c \in 1..(m + 1) |-> IF c = m + 1 THEN 10
                     ELSE IF edge(c - 1)[4] <= p /\ p < edge(c - 1)[5] THEN Bar ELSE Blank]
    IN [r \in 1..(2 * n) |-> IF r % 2 = 1 THEN Row(r \div 2) ELSE Gap((r \div 2) - 1)]

MInit == /\ dp = "given" /\ dn = N /\ des \in Graphs /\ doff \in {0, 1} /\ dv = <<>> /\ de = {} /\ dpic = <<>>
MNext == \/ \E hs \in Perms(0..(N - 1), N), cs \in Perms(0..(Len(des) - 1), Len(des)), rs \in [V -> Ranges(Len(des))] :
              LET d == TLCEval(Drawing(des, hs, cs, [x \in V |-> rs[x][1]], [x \in V |-> rs[x][2]])) IN DDraw(1, d.v, Arcs(d.e), Len(des))
         \/ dp = "drawn" /\ dpic = <<>> /\ DRender(1, TLCEval(Rendered(dn, Len(des), doff, dv, de)))
MSpec == MInit /\ [][MNext]_dvars
\* the rendition shows the drawing
Shows == dpic # <<>> =>
    /\ \A x \in V : DecodeVertex(dpic, dv[x][1], Len(des)) = dv[x]
    /\ \A e \in de : DecodeEdge(dpic, e[3], N) = <<e[4], e[5]>>
\* the drawing survives being saved and read, for every order of the records
Survives == dp = "drawn" => \A order \in Perms(de, Len(des)) : ReadEdges(N, dv, SavedEdges(order)) = de
=============================================================================
