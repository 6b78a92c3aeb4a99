------------------------------ MODULE MCReplay ------------------------------
(* The realised graph structure (StoreImpl) run through Replay: two objects,   *)
(* every interleaving of edge operations, hiding, reinitialising, copying,     *)
(* attaching and detaching.  What a realised object shows must be what the     *)
(* tree of pasts says, and the orders of both pasts agree.                     *)
EXTENDS StoreImpl
VARIABLES at, ord, fe, tree, view, im, left, ok
CONSTANTS N, Cap, Steps, Reuse    \* Reuse: "clean", or a reinitialisation that forgets something
R == INSTANCE Replay
O == {1, 2}
Look(m) == ToString(<<m.M, [v \in 1..m.n |-> [j \in 1..Len(ListI(m, v)) |-> <<ListI(m, v)[j], m.E[ListI(m, v)[j]].nb, m.E[ListI(m, v)[j]].dir>>]]>>)
Again(m) == CASE Reuse = "clean" -> ImFresh(m.n, m.cap)
              [] Reuse = "holes" -> [ImFresh(m.n, m.cap) EXCEPT !.holes = m.holes]
              [] Reuse = "dirs" -> [ImFresh(m.n, m.cap) EXCEPT !.E = [e \in DOMAIN m.E |-> [Blank EXCEPT !.dir = m.E[e].dir]]]
Init == /\ at = <<>> /\ ord = <<>> /\ fe = <<>> /\ tree = <<>> /\ view = <<"">>
        /\ im = <<>> /\ left = Steps /\ ok = TRUE /\ objs = <<>>
Try(A, B) == /\ ok' = A /\ IF A THEN B ELSE UNCHANGED <<at, ord, fe, tree, view>>
Put1(o, m) == im' = R!Over(im, o, m)
Tick == ok /\ left > 0 /\ left' = left - 1 /\ UNCHANGED objs
Do(o, op, m) == /\ Put1(o, m) /\ Try(ENABLED R!RpDo(o, op, "", Look(m)), R!RpDo(o, op, "", Look(m)))
Next ==
    \/ Tick /\ \E o \in O \ DOMAIN im : LET m == ImFresh(N, Cap) IN Put1(o, m) /\ Try(ENABLED R!RpNew(o, N, R!Empty(N), "1", Look(m), {}), R!RpNew(o, N, R!Empty(N), "1", Look(m), {}))
    \/ Tick /\ \E o \in DOMAIN im : LET m == Again(im[o]) IN Put1(o, m) /\ Try(ENABLED R!RpReinit(o, Look(m)), R!RpReinit(o, Look(m)))
    \/ Tick /\ \E o \in DOMAIN im, u, v \in 1..N, l \in {0, 1} : u < v /\ im[o].stk = <<>> /\ ~(\E j \in 1..Len(ListI(im[o], u)) : im[o].E[ListI(im[o], u)[j]].nb = v)
         /\ Do(o, ToString(<<"add", u, v, l>>), AddI(im[o], u, l, v, l)[2])
    \/ Tick /\ \E o \in DOMAIN im : \E e \in First..(InUse(im[o]) - 1) : im[o].E[e].nb # 0 /\ im[o].stk = <<>>
         /\ Do(o, ToString(<<"del", e>>), DelI(im[o], e, 0)[2])
    \/ Tick /\ \E o \in DOMAIN im : \E e \in First..(InUse(im[o]) - 1) : im[o].E[e].nb # 0 /\ Do(o, ToString(<<"dir", e>>), SetDirI(im[o], e, 32))
    \/ Tick /\ \E o \in DOMAIN im, v \in 1..N : Len(im[o].stk) = 0 /\ Do(o, ToString(<<"hide", v>>), HideVertexI(im[o], v))
    \/ Tick /\ \E o \in DOMAIN im : Len(im[o].stk) > 0 /\ Do(o, "restore", RestoreVertexI(im[o])[2])
    \/ Tick /\ \E s \in DOMAIN im, d \in O : s # d /\
         LET m == CopyI(IF d \in DOMAIN im THEN im[d] ELSE ImFresh(N, Cap), im[s])
         IN Put1(d, m) /\ Try(ENABLED R!RpCopy(d, s, fe[s], Look(m)), R!RpCopy(d, s, fe[s], Look(m)))
    \/ Tick /\ \E o \in DOMAIN im : \E f \in {"d"} : UNCHANGED im /\
         IF f \in fe[o] THEN Try(TRUE, R!RpDetach(o, f, 1, fe[o] \ {f}, Look(im[o]))) ELSE Try(TRUE, R!RpAttach(o, f, 1, fe[o] \cup {f}, Look(im[o])))
vars == <<at, ord, fe, tree, view, im, left, ok, objs>>
Spec == Init /\ [][Next]_vars
Deterministic == ok
\* objects with the same past show the same
SamePastSameView == \A o, p \in DOMAIN im : at[o] = at[p] => Look(im[o]) = Look(im[p])
\* and the view of the past is what the object shows
ViewShown == \A o \in DOMAIN im : view[at[o]] = Look(im[o])
=============================================================================
