------------------------------ MODULE TraceGen ------------------------------
EXTENDS Generators, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
TInit == GInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ GNew(ev.n, ev.cap)
    \/ IsEv("gen") /\ GGen(ev.kind, ev.req, ev.sd, ev.ret, ev.adj, ev.m, ev.rot)
    \/ IsEv("again") /\ GAgain(ev.kind, ev.req, ev.sd, ev.ret, ev.adj)
    \/ IsEv("del") /\ GDelete(ev.v, ev.w, ev.adj, ev.m)
    \/ IsEv("reinit") /\ GReinit(ev.adj, ev.m)
    \/ IsEv("free") /\ GFree
TSpec == TInit /\ [][TNext]_<<gvars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
