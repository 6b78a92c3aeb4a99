-------------------------- MODULE TraceContainers --------------------------
EXTENDS Containers, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
\* every list of every collection, forwards and backwards; every stack: its size, emptiness and content
SeenL == \A c \in DOMAIN lists' : \A k \in DOMAIN lists'[c] :
            ev.l[c][k][1] = lists'[c][k] /\ ev.l[c][k][2] = Rev(lists'[c][k])
SeenS == \A s \in DOMAIN stk' : ev.s[s] = stk'[s]
TInit == lists = <<>> /\ stk = <<>> /\ cap = <<>> /\ i = 1
TNext ==
    \/ IsEv("begin") /\ lists' = [c \in 1..2 |-> [k \in 1..ev.slots |-> <<>>]] /\ stk' = <<<<>>, <<>>>> /\ cap' = ev.caps
    \/ IsEv("lapp") /\ LAppend(ev.c, ev.k, ev.x) /\ SeenL
    \/ IsEv("lpre") /\ LPrepend(ev.c, ev.k, ev.x) /\ SeenL
    \/ IsEv("laft") /\ LAfter(ev.c, ev.k, ev.a, ev.x) /\ SeenL
    \/ IsEv("lbef") /\ LBefore(ev.c, ev.k, ev.a, ev.x) /\ SeenL
    \/ IsEv("ldel") /\ LDelete(ev.c, ev.k, ev.x) /\ SeenL
    \/ IsEv("lreset") /\ LReset(ev.c) /\ SeenL
    \/ IsEv("lcopy") /\ LCopy(ev.d, ev.c) /\ SeenL
    \/ IsEv("push") /\ SPush(ev.k, ev.vs, ev.ret) /\ SeenS
    \/ IsEv("pop") /\ SPop(ev.k, ev.cnt, ev.ret, ev.out) /\ SeenS
    \/ IsEv("popfirst") /\ SPopFirst(ev.k, ev.ret, ev.a) /\ SeenS
    \/ IsEv("discard") /\ SDiscard(ev.k, ev.cnt, ev.ret) /\ SeenS
    \/ IsEv("top") /\ STop(ev.k, ev.val) /\ SeenS
    \/ IsEv("get") /\ SGet(ev.k, ev.p, ev.val) /\ SeenS
    \/ IsEv("set") /\ SSet(ev.k, ev.p, ev.x, ev.val) /\ SeenS
    \/ IsEv("clear") /\ SClear(ev.k) /\ SeenS
    \/ IsEv("cut") /\ (SCut(ev.k, ev.p, ev.ret) \/ SOverCut(ev.k, ev.p, ev.ret)) /\ SeenS
    \/ IsEv("copycontent") /\ SCopyContent(ev.d, ev.k, ev.ret) /\ SeenS
    \/ IsEv("scopy") /\ SCopy(ev.d, ev.k, ev.ret, ev.nc) /\ SeenS
    \/ IsEv("sdup") /\ SDup(ev.d, ev.k, ev.nc) /\ SeenS
    \/ IsEv("snew") /\ SNew(ev.d, ev.nc) /\ SeenS
TSpec == TInit /\ [][TNext]_<<cvars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
