------------------------------ MODULE MCStreams ------------------------------
(* A string reader (content changed in place, position) and a file reader     *)
(* (unchanged content, position, put-back cell) against the abstract reader.  *)
EXTENDS Streams
CONSTANTS L, Alpha, Steps
VARIABLES str, spos, file, fpos, fback, left
mvars == <<svars, str, spos, file, fpos, fback, left>>
R == {1, 2}     \* 1: string, 2: file
RECURSIVE Words(_)
Words(k) == IF k = 0 THEN {<<>>} ELSE LET W == Words(k - 1) IN W \cup {Append(w, a) : w \in {x \in W : Len(x) = k - 1}, a \in Alpha}
MInit == /\ \E w \in Words(L) : rest = [r \in R |-> w] /\ str = w /\ file = w
         /\ can = [r \in R |-> FALSE] /\ spos = 0 /\ fpos = 0 /\ fback = <<>> /\ left = Steps
         /\ text = <<>> /\ buf = <<>> /\ rp = <<>>
At(s, p) == IF p < Len(s) THEN s[p + 1] ELSE EOFC
FRest == fback \o Drop(file, fpos)
SGet == Getc(1, At(str, spos)) /\ spos' = (IF spos < Len(str) THEN spos + 1 ELSE spos) /\ UNCHANGED <<str, file, fpos, fback>>
FGet == /\ Getc(2, IF fback # <<>> THEN fback[1] ELSE At(file, fpos))
        /\ (IF fback # <<>> THEN fback' = <<>> /\ UNCHANGED fpos ELSE UNCHANGED fback /\ fpos' = (IF fpos < Len(file) THEN fpos + 1 ELSE fpos))
        /\ UNCHANGED <<str, spos, file>>
SUnget(a) == spos > 0 /\ Ungetc(1, a, a) /\ spos' = spos - 1 /\ str' = [str EXCEPT ![spos] = a] /\ UNCHANGED <<file, fpos, fback>>
FUnget(a) == Ungetc(2, a, a) /\ fback' = <<a>> /\ UNCHANGED <<str, spos, file, fpos>>
SLine(k) == LET g == LineOf(Drop(str, spos), k) IN Fgets(1, k, spos < Len(str), g) /\ spos' = spos + Len(g) /\ UNCHANGED <<str, file, fpos, fback>>
FLine(k) == LET g == LineOf(FRest, k) IN Fgets(2, k, FRest # <<>>, g)
            /\ (IF fback = <<>> THEN fpos' = fpos + Len(g) /\ UNCHANGED fback
                ELSE IF g = <<>> THEN UNCHANGED <<fpos, fback>> ELSE fpos' = fpos + Len(g) - 1 /\ fback' = <<>>)
            /\ UNCHANGED <<str, spos, file>>
Next == left > 0 /\ left' = left - 1
        /\ (SGet \/ FGet \/ (\E a \in Alpha : SUnget(a) \/ FUnget(a)) \/ (\E k \in 1..3 : SLine(k) \/ FLine(k)))
MSpec == MInit /\ [][Next]_mvars
StringReads == rest[1] = Drop(str, spos)
FileReads == rest[2] = FRest
\* put-back is always possible when the abstract reader allows it
CanPutBack == can[1] => spos > 0
=============================================================================
