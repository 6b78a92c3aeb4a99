----------------------------- MODULE TraceReplay -----------------------------
(* Recorded histories of several graph objects checked against Replay.          *)
(* `seen` is everything visible through the interface after the step.           *)
EXTENDS Replay, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
SetOf(s) == {s[j] : j \in 1..Len(s)}
TInit == RpInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ at' = <<>> /\ ord' = <<>> /\ fe' = <<>> /\ tree' = <<>> /\ view' = <<"">>
    \/ IsEv("new") /\ RpNew(ev.o, ev.n, ev.how, ev.seen, ev.st, SetOf(ev.asked)) /\ SetOf(ev.found) = fe'[ev.o]
    \/ IsEv("reinit") /\ RpReinit(ev.o, ev.st)
    \/ IsEv("op") /\ RpDo(ev.o, ev.op, ev.seen, ev.st)
    \/ IsEv("copy") /\ RpCopy(ev.d, ev.s, SetOf(ev.found), ev.st) /\ ev.ret = 1
    \/ IsEv("attach") /\ RpAttach(ev.o, ev.f, ev.ret, SetOf(ev.found), ev.st)
    \/ IsEv("detach") /\ RpDetach(ev.o, ev.f, ev.ret, SetOf(ev.found), ev.st)
    \/ IsEv("free") /\ RpFree(ev.o)
TSpec == TInit /\ [][TNext]_<<rpVars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
