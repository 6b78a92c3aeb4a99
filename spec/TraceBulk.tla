------------------------------ MODULE TraceBulk ------------------------------
EXTENDS Bulk, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
TInit == BInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ BNew(ev.n, ev.cap)
    \/ IsEv("grow") /\ BGrow(ev.k, ev.oks, ev.m, ev.arcs, ev.cap)
    \/ IsEv("fill") /\ BFill(ev.k, ev.oks, ev.m, ev.arcs, ev.cap)
    \/ IsEv("ensure") /\ BEnsure(ev.req, ev.ret, ev.m, ev.arcs, ev.cap)
    \/ IsEv("drop") /\ BDrop(ev.k, ev.oks, ev.m, ev.arcs, ev.cap)
    \/ IsEv("copy") /\ BCopy(ev.ret, ev.m, ev.arcs, ev.cap)
    \/ IsEv("free") /\ BFree
TSpec == TInit /\ [][TNext]_<<bvars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
