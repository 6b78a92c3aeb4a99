----------------------------- MODULE TraceMenu -----------------------------
EXTENDS Menu, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
Listing(l) == [x \in {l[k][1] : k \in 1..Len(l)} |->
                  LET k == CHOOSE j \in 1..Len(l) : l[j][1] = x IN IF l[k][2] = <<-1>> THEN (IF x \in DOMAIN fs THEN fs[x] ELSE <<-1>>) ELSE l[k][2]]
F2 == TLCEval(Listing(ev.fs))
TInit == MenuInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ CBegin([x \in {} |-> <<>>]) /\ on' = FALSE /\ mode' = "r" /\ flags' = <<"n", "n", "n", "n">>
    \/ IsEv("put") /\ Put(ev.name, ev.text) /\ UNCHANGED <<on, mode, flags>>
    \/ IsEv("gone") /\ Released(ev.live, ev.open) /\ UNCHANGED <<on, mode, flags>>
    \/ IsEv("mstart") /\ Start
    \/ IsEv("conf") /\ Configure(ev.mode, ev.flags, F2)
    \/ IsEv("ms") /\ MenuSpecific(ev.alg, ev.word, ev.dot, ev.long, ev.rc, F2, ev.pf)
    \/ IsEv("mx") /\ MenuTransform(ev.fmt, ev.i, ev.o, ev.can = 1, ev.rc, ev.con, ev.shown, F2)
    \/ IsEv("mt") /\ MenuAll(ev.alg, ev.i, ev.nm, ev.o, ev.can = 1, ev.rc, ev.con, ev.shown, F2, ev.pfs)
    \/ IsEv("mr") /\ MenuMany(ev.alg, ev.k, ev.n, ev.rc, ev.yes, ev.minors, ev.dirs, ev.pfs, F2)
    \/ IsEv("mm") /\ MenuOne(ev.alg, ev.n, ev.extra, ev.save, ev.rc, ev.edges, ev.nms, F2)
    \/ IsEv("msame") /\ Nothing(ev.said, F2)
    \/ IsEv("mquit") /\ End(ev.rc, F2)
    \/ IsEv("meof") /\ End(ev.rc, F2)
TSpec == TInit /\ [][TNext]_<<menuvars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
