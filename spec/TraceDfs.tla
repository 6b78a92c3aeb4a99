------------------------------ MODULE TraceDfs ------------------------------
EXTENDS Dfs, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
TInit == DInit /\ i = 1
TNext ==
    \/ IsEv("begin") /\ DBegin(ev.adj)
    \/ IsEv("dfs") /\ ev.ret = DOK /\ DDfs(ev.adj, ev.par, ev.ix, ev.ty)
    \/ IsEv("sort") /\ ev.ret = DOK /\ DSort(ev.adj, ev.par, ev.ix, ev.ty)
    \/ IsEv("least") /\ ev.ret = DOK /\ DLeast(ev.adj, ev.par, ev.ix, ev.ty, ev.la)
    \/ IsEv("low") /\ ev.ret = DOK /\ DLow(ev.adj, ev.par, ev.ix, ev.ty, ev.la, ev.lp)
    \* the graph is emptied and loaded again
    \/ IsEv("reload") /\ ph = "live" /\ IsSimpleAdj(ev.adj) = TRUE /\ Len(ev.adj) = Len(ga)
                      /\ ga' = ev.adj /\ numd' = FALSE /\ srt' = FALSE /\ par' = <<>> /\ ix' = <<>> /\ ty' = <<>> /\ UNCHANGED ph
    \/ IsEv("null") /\ ev.rets = <<0, 0, 0>> /\ UNCHANGED dvars
    \/ IsEv("free") /\ DEnd
TSpec == TInit /\ [][TNext]_<<dvars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
