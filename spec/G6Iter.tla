------------------------------- MODULE G6Iter -------------------------------
(* The graph6 iterators as protocol machines.                                 *)
(* A reader is absent, allocated, started on a text, or ended; a writer       *)
(* likewise.  Every call is enabled in every phase, and out of order it is    *)
(* refused and changes nothing.  After a malformed line (dead) or the end of  *)
(* the input only ending and freeing are specified.                           *)
EXTENDS Formats
VARIABLES rd, wr
ivars == <<rd, wr>>
NoReader == [ph |-> "none", lines |-> <<>>, k |-> 0, order |-> 0, dead |-> FALSE]
NoWriter == [ph |-> "none", n |-> 0, out |-> <<>>, dead |-> FALSE]
OKr == 1
(* ------- reading ------- *)
RAlloc(hasGraph, hadPtr, ret, ptr) ==
    IF hadPtr \/ ~hasGraph THEN ret # OKr /\ ptr = hadPtr /\ UNCHANGED rd
    ELSE ret = OKr /\ ptr /\ rd' = [NoReader EXCEPT !.ph = "alloc"]
\* n0: order of the graph that the iterator fills, 0 when it is not initialised yet
RBegin(t, n0, ret) ==
    LET ls == Lines(NoHeader(t))
        o == IF ls = <<>> THEN -1 ELSE OrderOf(ls[1])
    IN IF rd.ph = "none" THEN ret # OKr /\ UNCHANGED rd
       ELSE IF rd.ph # "alloc" THEN FALSE      \* starting twice is not specified
       ELSE IF ~HeaderOk(t) \/ o = -1 \/ (n0 # 0 /\ n0 # o) THEN ret # OKr /\ rd' = [rd EXCEPT !.ph = "failed", !.dead = TRUE]
       ELSE ret = OKr /\ rd' = [rd EXCEPT !.ph = "begun", !.lines = ls, !.order = o, !.k = 0]
RRead(ret, cnt, atEnd, n, lists) ==
    IF rd.ph # "begun" THEN ret # OKr /\ UNCHANGED rd
    ELSE IF rd.dead THEN UNCHANGED rd
    ELSE IF rd.k = Len(rd.lines) THEN ret = OKr /\ atEnd /\ cnt = rd.k /\ rd' = [rd EXCEPT !.dead = TRUE]
    ELSE LET l == rd.lines[rd.k + 1]
             d == Dec6Line(l)
         IN IF d.st = "unspec" \/ (l = <<>> /\ rd.k > 0) THEN rd' = [rd EXCEPT !.dead = TRUE]
            ELSE IF d.st = "bad" THEN ret # OKr /\ cnt = rd.k /\ rd' = [rd EXCEPT !.dead = TRUE]
            ELSE IF d.n # rd.order THEN ret # OKr /\ cnt = rd.k /\ rd' = [rd EXCEPT !.dead = TRUE]
            ELSE /\ ret = OKr /\ ~atEnd /\ cnt = rd.k + 1 /\ n = d.n /\ FromEdges(lists, d.E)
                 /\ rd' = [rd EXCEPT !.k = @ + 1]
REnd(ret) == ret = OKr /\ rd' = IF rd.ph = "begun" \/ rd.ph = "alloc" THEN [rd EXCEPT !.ph = IF @ = "begun" THEN "ended" ELSE @] ELSE rd
RFree(ret, ptr) == ret = OKr /\ ~ptr /\ rd' = NoReader
RInfo(ret, cnt, order) == IF rd.ph = "none" THEN ret # OKr /\ UNCHANGED rd
                          ELSE ret = OKr /\ (rd.dead \/ (cnt = rd.k /\ order = rd.order)) /\ UNCHANGED rd
(* ------- writing ------- *)
WAlloc(n, hadPtr, ret, ptr) ==
    IF hadPtr \/ n = 0 THEN ret # OKr /\ ptr = hadPtr /\ UNCHANGED wr
    ELSE ret = OKr /\ ptr /\ wr' = [NoWriter EXCEPT !.ph = "alloc", !.n = n]
WBegin(ret) == IF wr.ph = "none" THEN ret # OKr /\ UNCHANGED wr
               ELSE wr.ph = "alloc" /\ ret = OKr /\ wr' = [wr EXCEPT !.ph = "begun"]
WWrite(lists, ret, cnt) ==
    IF wr.ph # "begun" THEN ret # OKr /\ UNCHANGED wr
    ELSE IF wr.dead THEN UNCHANGED wr
    ELSE IF Stray(lists) \/ ~Undirected(lists) THEN ret # OKr /\ cnt = Len(wr.out) /\ wr' = [wr EXCEPT !.dead = TRUE]
    ELSE ret = OKr /\ cnt = Len(wr.out) + 1 /\ wr' = [wr EXCEPT !.out = Append(@, Enc6(wr.n, EdgesOf(lists)))]
\* the text that has arrived in the file or string
Joined(ls) == IF ls = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o <<NLc>> \o b, ls[1], Tail(ls))
WText == sG6 \o Joined(wr.out)
WEnd(ret, t) == /\ ret = OKr /\ (wr.ph = "begun" /\ ~wr.dead => SameText(t, WText))
                /\ wr' = IF wr.ph = "begun" THEN [wr EXCEPT !.ph = "ended"] ELSE wr
WFree(ret, ptr) == ret = OKr /\ ~ptr /\ wr' = NoWriter
WInfo(ret, cnt, order) == IF wr.ph = "none" THEN ret # OKr /\ UNCHANGED wr
                          ELSE ret = OKr /\ (wr.dead \/ (cnt = Len(wr.out) /\ order = (IF wr.ph = "alloc" THEN 0 ELSE wr.n))) /\ UNCHANGED wr
=============================================================================
