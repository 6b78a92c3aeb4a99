----------------------------- MODULE TraceSteps -----------------------------
(* Validates the states that embedding runs of the code go through.          *)
EXTENDS Steps, Json, IOUtils
VARIABLE i

Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1

TInit == SInit /\ i = 1
TNext ==
    \/ IsEv("load")  /\ SLoad(ev.n, ev.es, ev.alg)
    \/ IsEv("init")  /\ SBegin(ev.ix, ev.par)
    \/ IsEv("step")  /\ SStep(ev.v, ev.rot, Rng(ev.inv), ev.all = 1)
    \/ IsEv("over")  /\ SOver(ev.ret)
TSpec == TInit /\ [][TNext]_<<svars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
