---------------------------- MODULE TraceFeatures ----------------------------
(* Recorded attaching, detaching, copying and calling checked against Features. *)
EXTENDS Features, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
TInit == FtInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ att' = <<>> /\ ov' = <<>>
    \/ IsEv("new") /\ FtNew(ev.o)
    \/ IsEv("attach") /\ FtAttach(ev.o, ev.x, SetOf(ev.fns), ev.ret)
    \/ IsEv("detach") /\ FtDetach(ev.o, ev.x, ev.ret, ev.freed)
    \/ IsEv("call") /\ FtCall(ev.o, ev.fn, ev.log)
    \/ IsEv("find") /\ FtFound(ev.o, SetOf(ev.found))
    \/ IsEv("copy") /\ FtCopy(ev.d, ev.s, ev.freed, ev.dupd)
    \/ IsEv("free") /\ FtFree(ev.o, ev.freed)
TSpec == TInit /\ [][TNext]_<<ftVars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
