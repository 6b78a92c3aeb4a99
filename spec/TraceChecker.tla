---------------------------- MODULE TraceChecker ----------------------------
EXTENDS Checker, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
TInit == CkInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ CkBegin(ev.n, ev.es, ev.alg, ev.adj)
    \/ IsEv("corrupt") /\ CkCorrupt(ev.adj)
    \/ IsEv("ref") /\ CkRef(ev.n, ev.es)
    \/ IsEv("check") /\ CkCheck(ev.claim, Rng(ev.starts), ev.ret, ev.adj, ev.es)
    \/ IsEv("free") /\ CkEnd
TSpec == TInit /\ [][TNext]_<<ckVars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
