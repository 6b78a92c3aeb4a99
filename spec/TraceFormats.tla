---------------------------- MODULE TraceFormats ----------------------------
(* Recorded reads, writes and iterator calls checked against Formats, G6Iter. *)
EXTENDS G6Iter, Json, IOUtils
VARIABLES last, i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
TInit == rd = NoReader /\ wr = NoWriter /\ last = <<>> /\ i = 1
Same == UNCHANGED <<rd, wr>>
TNext ==
    \/ IsEv("begin") /\ rd' = NoReader /\ wr' = NoWriter /\ last' = <<>>
    \* no call leaves a file open; who owns a file given to a call that failed is open
    \/ IsEv("files") /\ ev.open \in 0..ev.given /\ Same /\ UNCHANGED last
    \* a graph written, by file or string
    \/ IsEv("write") /\ (WriteOk(ev.mode, ev.lists, ev.zb, ev.ret, ev.t)) = TRUE /\ last' = ev.t /\ Same
    \* the debugging dump, to a file only
    \/ IsEv("dump") /\ ev.ret = 1 /\ ev.sret # 1 /\ (DumpOk(ev, ev.t)) = TRUE /\ Same /\ UNCHANGED last
    \* what was written last, read and written again: the same text
    \/ IsEv("again") /\ ev.ret = 1 /\ ev.t = last /\ Same /\ UNCHANGED last
    \/ IsEv("read") /\ (ReadOk(ev.t, ev.via, ev.ret, ev.n, ev.lists, ev.zb)) = TRUE /\ Same /\ UNCHANGED last
    \* no text at all: a file that does not exist, no string
    \/ IsEv("noinput") /\ ev.ret # 1 /\ Same /\ UNCHANGED last
    \* a write to a device that is full, or to a path that does not exist
    \/ IsEv("nowrite") /\ ev.ret # 1 /\ Same /\ UNCHANGED last
    \* a large sparse graph, written and read: lists of edges only
    \/ IsEv("large") /\ ev.wret = 1 /\ ev.rret = 1 /\ ev.n2 = ev.n /\ {<<x[1], x[2]>> : x \in Ran(ev.e)} = {<<x[1], x[2]>> : x \in Ran(ev.e2)}
                     /\ Len(ev.e) = Len(ev.e2) /\ Same /\ UNCHANGED last
    \/ IsEv("ralloc") /\ (RAlloc(ev.graph, ev.had, ev.ret, ev.ptr)) /\ UNCHANGED <<wr, last>>
    \/ IsEv("rbegin") /\ RBegin(ev.t, ev.n0, ev.ret) /\ UNCHANGED <<wr, last>>
    \/ IsEv("rread") /\ RRead(ev.ret, ev.cnt, ev.end, ev.n, ev.lists) /\ UNCHANGED <<wr, last>>
    \/ IsEv("rend") /\ REnd(ev.ret) /\ UNCHANGED <<wr, last>>
    \/ IsEv("rfree") /\ RFree(ev.ret, ev.ptr) /\ UNCHANGED <<wr, last>>
    \/ IsEv("rinfo") /\ RInfo(ev.ret, ev.cnt, ev.order) /\ UNCHANGED <<wr, last>>
    \/ IsEv("walloc") /\ WAlloc(ev.n, ev.had, ev.ret, ev.ptr) /\ UNCHANGED <<rd, last>>
    \/ IsEv("wbegin") /\ WBegin(ev.ret) /\ UNCHANGED <<rd, last>>
    \/ IsEv("wwrite") /\ WWrite(ev.lists, ev.ret, ev.cnt) /\ UNCHANGED <<rd, last>>
    \/ IsEv("wend") /\ WEnd(ev.ret, ev.t) /\ UNCHANGED <<rd, last>>
    \/ IsEv("wfree") /\ WFree(ev.ret, ev.ptr) /\ UNCHANGED <<rd, last>>
    \/ IsEv("winfo") /\ WInfo(ev.ret, ev.cnt, ev.order) /\ UNCHANGED <<rd, last>>
TSpec == TInit /\ [][TNext]_<<rd, wr, last, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
