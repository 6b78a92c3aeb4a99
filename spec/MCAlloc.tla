------------------------------ MODULE MCAlloc ------------------------------
(* Why the contract of Alloc is attainable: a library whose calls acquire     *)
(* their blocks one by one, keep what is already linked into the object and   *)
(* release the rest when one cannot be had, satisfies it wherever the failure *)
(* happens, provided that no block is linked into an object twice and that    *)
(* linking happens after the acquisition succeeded.                           *)
EXTENDS Alloc, FiniteSets
CONSTANTS Objs, Blocks, Calls, Need, Persistent
VARIABLES heap,   \* blocks that are allocated
          call,   \* index of the call under way, 0 for none
          obj,    \* its object
          held,   \* blocks acquired by it and not linked yet
          owns,   \* object |-> blocks linked into it
          bad,    \* objects that have failed
          fault   \* acquisitions still to come before the failing one; -1 when it is over
mvars == <<heap, call, obj, held, owns, bad, fault>>
Live == held \cup UNION {owns[o] : o \in Objs}
MInit == /\ AInit /\ heap = {} /\ call = 0 /\ obj \in Objs /\ held = {} /\ bad = {} /\ owns = [o \in Objs |-> {}]
         /\ fault \in 0..(Calls * Need)
MBegin == done /\ at = 0 /\ ABegin([k \in 1..Calls |-> <<"call", 1, k>>]) /\ UNCHANGED mvars
Enter == /\ ~done /\ call = 0 /\ at < Calls
         /\ \E o \in Objs \ bad : obj' = o
         /\ call' = at + 1 /\ held' = {}
         /\ UNCHANGED <<heap, owns, bad, fault, avars>>
Broken == fault = 0 \/ (Persistent /\ fault < 0)
Acquire == /\ call > 0 /\ Cardinality(held) < Need /\ ~Broken
           /\ \E b \in Blocks \ heap : held' = held \cup {b} /\ heap' = heap \cup {b}
           /\ fault' = (IF fault > 0 THEN fault - 1 ELSE fault)
           /\ UNCHANGED <<call, obj, owns, bad, avars>>
\* some of the blocks may have been linked already when the failure strikes
Fail == /\ call > 0 /\ Cardinality(held) < Need /\ Broken
        /\ \E keep \in SUBSET held : owns' = [owns EXCEPT ![obj] = @ \cup keep] /\ heap' = heap \ (held \ keep)
        /\ held' = {} /\ bad' = bad \cup {obj} /\ fault' = -1 /\ call' = 0
        /\ ACall(call, TRUE, 0, 0) /\ UNCHANGED obj
Finish == /\ call > 0 /\ Cardinality(held) = Need
          /\ owns' = [owns EXCEPT ![obj] = held] /\ heap' = heap \ owns[obj] /\ held' = {} /\ call' = 0
          /\ ACall(call, FALSE, 1, call) /\ UNCHANGED <<obj, bad, fault>>
Release == /\ ~done /\ call = 0
           /\ \E o \in Objs : owns[o] # {} /\ owns' = [owns EXCEPT ![o] = {}] /\ heap' = heap \ owns[o]
           /\ UNCHANGED <<call, obj, held, bad, fault, avars>>
MEnd == /\ ~done /\ call = 0 /\ (\A o \in Objs : owns[o] = {}) /\ AEnd(Cardinality(heap), 0, 0)
        /\ UNCHANGED mvars
MNext == MBegin \/ Enter \/ Acquire \/ Fail \/ Finish \/ Release \/ MEnd
MSpec == MInit /\ [][MNext]_<<avars, mvars>>
Disjoint == \A a, b \in Objs : a # b => owns[a] \cap owns[b] = {}
Contract == (failed = (bad # {})) /\ heap = Live /\ (done => heap = {})
Reported == [][call > 0 /\ call' = 0 => at' = call /\ (failed' # failed => bad' # bad)]_<<avars, mvars>>
=============================================================================
