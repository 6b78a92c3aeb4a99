---------------------------- MODULE TraceDrawing ----------------------------
EXTENDS Drawing, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
TInit == DInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ DGive(ev.n, ev.zero, ev.es)
    \/ IsEv("drawn") /\ DDraw(ev.sorted, ev.v, ev.arcs, ev.m)
    \/ IsEv("render") /\ DRender(ev.ret, ev.rows)
    \/ IsEv("copy") /\ ev.ok = 1 /\ DCopy(ev.v, ev.arcs, ev.ret, ev.rows)
    \/ IsEv("reread") /\ DReread(ev.mode, ev.wret, ev.ret, ev.n, ev.zero, ev.v, ev.arcs, ev.rret, ev.rows)
    \/ IsEv("edited") /\ DEdited(ev.kind, ev.ret, ev.rret, ev.size)
    \/ IsEv("spoiled") /\ DSpoiled(ev.ret)
    \/ IsEv("free") /\ DFree
TSpec == TInit /\ [][TNext]_<<dvars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
