------------------------------- MODULE Replay -------------------------------
(* Graph objects as deterministic machines.  Whatever an operation shows is a  *)
(* function of the order of the object and of the operations carried out on    *)
(* it since it was new; reinitialising makes it new again, a copy takes over   *)
(* the past of its source, and attached features take no part in it.           *)
(*   at[o]   the past of object o, named by a node of the tree of all pasts    *)
(*   ord[o]  its order;  fe[o]  the features attached to it                    *)
(*   tree    <<node, operation>> -> <<child node, what was seen>>              *)
(* The first object to take a step decides what has to be seen on that branch  *)
(* ever after.                                                                 *)
(* `seen` is what an operation returned, `st` what the object looks like       *)
(* afterwards.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES at, ord, fe, tree, view
rpVars == <<at, ord, fe, tree, view>>
RpInit == at = <<>> /\ ord = <<>> /\ fe = <<>> /\ tree = <<>> /\ view = <<"">>
Over(f, o, x) == [y \in DOMAIN f \cup {o} |-> IF y = o THEN x ELSE f[y]]
Drop1(f, o) == [y \in DOMAIN f \ {o} |-> f[y]]
\* object o goes along branch k: `seen` is observed and the object looks like st
Go(o, k, seen, st) ==
    IF k \in DOMAIN tree
    THEN /\ tree[k][2] = seen /\ view[tree[k][1]] = st
         /\ at' = Over(at, o, tree[k][1]) /\ UNCHANGED <<tree, view>>
    ELSE /\ view' = Append(view, st)
         /\ tree' = Over(tree, k, <<Len(view'), seen>>) /\ at' = Over(at, o, Len(view'))
\* nothing is the root 1, whose branches are the ways in which a new object arises
\* asked: the features that were attached before the order was known
RpNew(o, n, how, seen, st, asked) == o \notin DOMAIN at /\ Go(o, <<1, how>>, seen, st) /\ ord' = Over(ord, o, n) /\ fe' = Over(fe, o, asked)
Empty(n) == "new " \o ToString(n)
RpReinit(o, st) == o \in DOMAIN at /\ Go(o, <<1, Empty(ord[o])>>, "1", st) /\ UNCHANGED <<ord, fe>>
RpDo(o, op, seen, st) == o \in DOMAIN at /\ Go(o, <<at[o], op>>, seen, st) /\ UNCHANGED <<ord, fe>>
RpCopy(d, s, found, st) ==
    /\ s \in DOMAIN at /\ (d \in DOMAIN at => ord[d] = ord[s])
    /\ at' = Over(at, d, at[s]) /\ ord' = Over(ord, d, ord[s]) /\ fe' = Over(fe, d, fe[s])
    /\ found = fe[s] /\ st = view[at[s]]
    /\ UNCHANGED <<tree, view>>
Stays(o, found, st) == found = fe'[o] /\ st = view[at[o]] /\ UNCHANGED <<at, ord, tree, view>>
RpAttach(o, f, ret, found, st) == o \in DOMAIN at /\ ret = 1 /\ fe' = Over(fe, o, fe[o] \cup {f}) /\ Stays(o, found, st)
RpDetach(o, f, ret, found, st) == o \in DOMAIN at /\ (ret = 1 \/ f \notin fe[o]) /\ fe' = Over(fe, o, fe[o] \ {f}) /\ Stays(o, found, st)
RpFree(o) == o \in DOMAIN at /\ at' = Drop1(at, o) /\ ord' = Drop1(ord, o) /\ fe' = Drop1(fe, o) /\ UNCHANGED <<tree, view>>
=============================================================================
