------------------------------ MODULE TraceCli ------------------------------
EXTENDS Cli, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
\* a listing is a sequence of <<name, characters>>; an unchanged file is listed with -1
Listing(l) == [x \in {l[k][1] : k \in 1..Len(l)} |->
                  LET k == CHOOSE j \in 1..Len(l) : l[j][1] = x IN IF l[k][2] = <<-1>> THEN (IF x \in DOMAIN fs THEN fs[x] ELSE <<-1>>) ELSE l[k][2]]
TInit == CInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ CBegin([x \in {} |-> <<>>])
    \/ IsEv("put") /\ Put(ev.name, ev.text)
    \/ IsEv("gone") /\ Released(ev.live, ev.open)
    \/ IsEv("x") /\ Transform(ev.fmt, ev.i, ev.o, ev.can = 1, ev.rc, TLCEval(Listing(ev.fs)))
    \/ IsEv("s") /\ Specific(ev.alg, ev.i, ev.o, ev.o2, ev.can = 1, ev.can2 = 1, ev.rc, TLCEval(Listing(ev.fs)), ev.pf)
    \/ IsEv("t") /\ AllGraphs(ev.alg, ev.i, ev.nm, ev.o, ev.can = 1, ev.rc, TLCEval(Listing(ev.fs)), ev.pfs)
    \/ IsEv("rm") /\ RandomMax(ev.n, ev.o, ev.o2, ev.can = 1, ev.rc, TLCEval(Listing(ev.fs)))
    \/ IsEv("rn") /\ RandomNon(ev.n, ev.o, ev.o2, ev.can = 1, ev.rc, TLCEval(Listing(ev.fs)))
    \/ IsEv("legacy") /\ Legacy(ev.i, ev.o, ev.o2, ev.can = 1, ev.can2 = 1, ev.rc, TLCEval(Listing(ev.fs)), ev.pf)
    \/ IsEv("r") /\ RandomMany(ev.k, ev.rc, ev.yes, ev.minors)
    \/ IsEv("usage") /\ Usage(ev.rc, TLCEval(Listing(ev.fs)))
    \/ IsEv("help") /\ Help(ev.rc, TLCEval(Listing(ev.fs)))
TSpec == TInit /\ [][TNext]_<<cvars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
