----------------------------- MODULE TraceAlloc -----------------------------
EXTENDS Alloc, Json, IOUtils, TLC
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
TInit == AInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ ABegin(ev.plan)
    \/ IsEv("op") /\ ACall(ev.k, ev.fired = 1, ev.ret, ev.val)
    \/ IsEv("end") /\ AEnd(ev.live, ev.open, ev.given)
TSpec == TInit /\ [][TNext]_<<avars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
