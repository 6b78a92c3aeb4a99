----------------------------- MODULE MCFeatures -----------------------------
(* The realisation: every function table entry of the graph and of a feature     *)
(* holds a function; attaching swaps entries, detaching hands the entry of the   *)
(* leaving feature to the nearest more recent one that overloads the same, or to  *)
(* the graph.  Function values: 0 built-in, x the overload of feature x, -1 none. *)
EXTENDS Features
CONSTANTS Feats, Fns, Steps
VARIABLES gt, et, left
Ob == 1
MInit == /\ att = (Ob :> <<>>) /\ ov = (Ob :> <<>>) /\ gt = [f \in Fns |-> 0] /\ et = <<>> /\ left = Steps
\* positions more recent than that of x which overload f; the nearest is the last of them
Pos(x) == CHOOSE p \in 1..Len(att[Ob]) : att[Ob][p] = x
Newer(x, f) == {p \in 1..(Pos(x) - 1) : et[att[Ob][p]][f] # -1}
Max(S) == CHOOSE p \in S : \A q \in S : q <= p
Attach(x, F) ==
    /\ FtAttach(Ob, x, F, 1)
    /\ et' = Put(et, x, [f \in Fns |-> IF f \in F THEN gt[f] ELSE -1])
    /\ gt' = [f \in Fns |-> IF f \in F THEN x ELSE gt[f]]
Detach(x) ==
    /\ FtDetach(Ob, x, 1, <<x>>)
    /\ gt' = [f \in Fns |-> IF et[x][f] # -1 /\ Newer(x, f) = {} THEN et[x][f] ELSE gt[f]]
    /\ et' = Cut([y \in DOMAIN et |-> [f \in Fns |-> IF et[x][f] # -1 /\ Newer(x, f) # {} /\ y = att[Ob][Max(Newer(x, f))] THEN et[x][f] ELSE et[y][f]]], x)
MNext == left > 0 /\ left' = left - 1 /\
    \/ \E x \in Feats \ SetOf(att[Ob]), F \in SUBSET Fns : Attach(x, F)
    \/ \E x \in SetOf(att[Ob]) : Detach(x)
MSpec == MInit /\ [][MNext]_<<att, ov, gt, et, left>>
RECURSIVE Chain(_, _)
Chain(x, f) == IF x = 0 THEN <<>> ELSE <<x>> \o Chain(et[x][f], f)
Chains == \A f \in Fns : Chain(gt[f], f) = Runs(Ob, f)
=============================================================================
