------------------------------ MODULE Features ------------------------------
(* The extension mechanism.  Every graph object has a list of attached          *)
(* features, the most recent first, and every feature overloads some of the     *)
(* functions.  Calling a function runs the overloads of the attached features,   *)
(* the most recent first, and then the built-in behaviour.  Features are known   *)
(* by an identifier; detaching one, wherever it stands, leaves the others as     *)
(* they are.  The data of a feature is released once: when it is detached, when  *)
(* its object is freed or when another object is copied onto its object.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES att,   \* att[o]: the features of o, most recent first
          ov     \* ov[o][x]: the functions feature x of object o overloads
ftVars == <<att, ov>>
SetOf(s) == {s[j] : j \in 1..Len(s)}
Put(f, o, x) == [y \in DOMAIN f \cup {o} |-> IF y = o THEN x ELSE f[y]]
Cut(f, o) == [y \in DOMAIN f \ {o} |-> f[y]]
FtInit == att = <<>> /\ ov = <<>>
FtNew(o) == o \notin DOMAIN att /\ att' = Put(att, o, <<>>) /\ ov' = Put(ov, o, <<>>)
FtAttach(o, x, fns, ret) ==
    IF x \in SetOf(att[o]) THEN ret = 0 /\ UNCHANGED ftVars
    ELSE ret = 1 /\ att' = [att EXCEPT ![o] = <<x>> \o @] /\ ov' = [ov EXCEPT ![o] = Put(@, x, fns)]
FtDetach(o, x, ret, freed) ==
    /\ ret = 1
    /\ freed = (IF x \in SetOf(att[o]) THEN <<x>> ELSE <<>>)
    /\ att' = [att EXCEPT ![o] = SelectSeq(@, LAMBDA y : y # x)] /\ UNCHANGED ov
Runs(o, fn) == SelectSeq(att[o], LAMBDA x : fn \in ov[o][x])
FtCall(o, fn, log) == log = Runs(o, fn) /\ UNCHANGED ftVars
FtFound(o, s) == s = SetOf(att[o]) /\ UNCHANGED ftVars
Bag(s) == [x \in SetOf(s) |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
\* d takes over copies of the features of s
FtCopy(d, s, freed, dupd) ==
    /\ s \in DOMAIN att
    /\ Bag(freed) = Bag(IF d \in DOMAIN att THEN att[d] ELSE <<>>)
    /\ Bag(dupd) = Bag(att[s])
    /\ att' = Put(att, d, att[s]) /\ ov' = Put(ov, d, ov[s])
FtFree(o, freed) == o \in DOMAIN att /\ Bag(freed) = Bag(att[o]) /\ att' = Cut(att, o) /\ ov' = Cut(ov, o)
=============================================================================
