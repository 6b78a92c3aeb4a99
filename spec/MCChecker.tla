------------------------------ MODULE MCChecker ------------------------------
(* The procedures a checker may use against the definitions, for every graph  *)
(* on N vertices: counting degrees and following paths of degree-two vertices *)
(* recognises exactly the subdivisions, and counting faces from one start per *)
(* component recognises exactly the planar rotations.                         *)
EXTENDS GraphMath
CONSTANTS N, Rots
VARIABLES E
Pairs == {<<a, b>> \in (1..N) \X (1..N) : a < b}
Init == E \in SUBSET Pairs
Next == UNCHANGED E
Spec == Init /\ [][Next]_E
nb == NbrsOfArcs(N, E \cup {<<p[2], p[1]>> : p \in E})
V == 1..N
deg(v) == Cardinality(nb[v])

\* follow from branch vertex u over w through vertices of degree two; <<end, inner vertices>>
RECURSIVE Follow(_, _, _)
Follow(p, c, S) == IF deg(c) # 2 \/ c \in S THEN <<c, S>>
                   ELSE Follow(c, CHOOSE x \in nb[c] : x # p, S \cup {c})
Path(u, v) == {w \in nb[u] : Follow(u, w, {})[1] = v}
Inner(u, v) == LET w == CHOOSE x \in Path(u, v) : TRUE IN Follow(u, w, {})[2]
Img(d) == {v \in V : deg(v) = d}
Plain(d) == \A v \in V : deg(v) \in {0, 2, d}
AllInner(prs, extra) == {v \in V : deg(v) = 2} = UNION {Inner(p[1], p[2]) : p \in prs} \cup extra
Complete(k) == /\ Cardinality(Img(k - 1)) = k /\ Plain(k - 1)
               /\ \A u, v \in Img(k - 1) : u # v => Path(u, v) # {}
               /\ AllInner({p \in Img(k - 1) \X Img(k - 1) : p[1] # p[2]}, {})
ByPathsK33 == /\ Cardinality(Img(3)) = 6 /\ Plain(3)
              /\ LET u == CHOOSE x \in Img(3) : TRUE
                     B == {v \in Img(3) : v # u /\ Path(u, v) # {}}
                     A == Img(3) \ B
                 IN /\ Cardinality(B) = 3
                    /\ \A a \in A, b \in B : Path(a, b) # {}
                    /\ AllInner(A \X B, {})
ByPathsK23 == /\ Cardinality(Img(3)) = 2 /\ Plain(3)
              /\ LET u == CHOOSE x \in Img(3) : TRUE
                     v == CHOOSE x \in Img(3) : x # u
                 IN /\ v \notin nb[u]
                    /\ \A w \in nb[u] : Follow(u, w, {})[1] = v
                    /\ {x \in V : deg(x) = 2} = UNION {Follow(u, w, {})[2] : w \in nb[u]}
Agree == /\ Complete(5) = IsSubdivision(nb, "K5")
         /\ Complete(4) = IsSubdivision(nb, "K4")
         /\ ByPathsK33 = IsSubdivision(nb, "K33")
         /\ ByPathsK23 = IsSubdivision(nb, "K23")

\* faces counted per component, with the isolated vertices having none
RECURSIVE SeqsOf(_)
SeqsOf(S) == IF S = {} THEN {<<>>} ELSE UNION {{Append(s, x) : s \in SeqsOf(S \ {x})} : x \in S}
RECURSIVE RotUpTo(_)
RotUpTo(k) == IF k = 0 THEN {<<>>} ELSE {Append(r, s) : r \in RotUpTo(k - 1), s \in SeqsOf(nb[k])}
CountOK(r) == LET c == Components(nb, V)
                  f == FaceCount(r) - Cardinality({x \in c : \E v \in x : deg(v) > 0}) + 1
              IN f = Cardinality(E) - N + 1 + Cardinality(c)
Faces == Rots => \A r \in RotUpTo(N) : CountOK(r) <=> PlanarRotation(r)
=============================================================================
