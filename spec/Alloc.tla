------------------------------- MODULE Alloc -------------------------------
(* A program of library calls in which an allocation fails.                   *)
(* plan[k] = <<name, answer, value>> of call k in the undisturbed run; answer *)
(* 1 or -1 is an answer, 0 a failure.  A call in which the failure happens    *)
(* reports it; calls on objects that have not failed answer as ever; calls on *)
(* failed objects are not made, except for releasing them; in the end nothing *)
(* is left allocated and no file open, except one that was handed over to a   *)
(* call that failed (given), whose owner is not specified.                    *)
EXTENDS Integers, Sequences
VARIABLES plan, at, failed, done
avars == <<plan, at, failed, done>>
AInit == plan = <<>> /\ at = 0 /\ failed = FALSE /\ done = TRUE
ABegin(p) == done /\ plan' = p /\ at' = 0 /\ failed' = FALSE /\ done' = FALSE
ACall(k, fired, ret, val) ==
    /\ ~done /\ k > at /\ k <= Len(plan)
    /\ IF fired THEN ret = 0 ELSE ret = plan[k][2] /\ val = plan[k][3]
    /\ at' = k /\ failed' = (failed \/ fired) /\ UNCHANGED <<plan, done>>
AEnd(live, open, given) == ~done /\ live = 0 /\ open \in 0..given /\ done' = TRUE /\ UNCHANGED <<plan, at, failed>>
=============================================================================
