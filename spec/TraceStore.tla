------------------------------ MODULE TraceStore ------------------------------
(* Validates recorded histories of operations on graph objects against Store. *)
EXTENDS Store, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
\* the projection of object o after the event; objects are listed with their names
ObIdx(o) == CHOOSE k \in 1..Len(ev.obs) : ev.obs[k].o = o
HasOb(o) == \E k \in 1..Len(ev.obs) : ev.obs[k].o = o
CapOf(o) == IF HasOb(o) THEN ev.obs[ObIdx(o)].cap ELSE 0
DirsOf(o) == LET ob == ev.obs[ObIdx(o)]
                 P == UNION {{ob.f[v][k] : k \in 1..Len(ob.f[v])} : v \in 1..ob.n}
             IN [a \in {p[1] : p \in P} |-> (CHOOSE p \in P : p[1] = a)[3]]
Act ==
    \/ IsEv("begin") /\ objs' = EmptyF
    \/ IsEv("new")   /\ New(ev.o, ev.n, ev.cap0, CapOf(ev.o))
    \/ IsEv("free")  /\ FreeObj(ev.o)
    \/ IsEv("reinit") /\ Reinit(ev.o)
    \/ IsEv("add")   /\ Add(ev.o, ev.u, ev.ul, ev.v, ev.vl, ev.ret, ev.a, ev.b)
    \/ IsEv("dynadd") /\ DynAdd(ev.o, ev.u, ev.ul, ev.v, ev.vl, ev.ret, ev.a, ev.b, CapOf(ev.o))
    \/ IsEv("insert") /\ Insert(ev.o, ev.u, ev.eu, ev.ul, ev.v, ev.e2, ev.vl, ev.ret, ev.a, ev.b)
    \/ IsEv("delete") /\ Delete(ev.o, ev.e, ev.link, ev.ret)
    \/ IsEv("setdir") /\ SetDir(ev.o, ev.e, ev.d)
    \/ IsEv("move")  /\ MoveArc(ev.o, ev.v, ev.e, ev.last = 1)
    \/ IsEv("rewire") /\ Rewire(ev.o, ev.e, ev.f, ev.link)
    \/ IsEv("query") /\ Query(ev.o, ev.u, ev.v, ev.isn, ev.rec, ev.deg, ev.din, ev.dout, ev.cn, ev.cp)
    \/ IsEv("ensure") /\ Ensure(ev.o, ev.req, ev.ret, CapOf(ev.o))
    \/ IsEv("hidee") /\ HideEdge(ev.o, ev.e)
    \/ IsEv("hidev") /\ HideVertex(ev.o, ev.v)
    \/ IsEv("contract") /\ \E k \in 0..Len(objs[ev.o].adj[Owner(objs[ev.o], ev.e)]) : Contract(ev.o, ev.e, ev.ret, k)
    \/ IsEv("identify") /\ \E k \in 0..Len(objs[ev.o].adj[ev.u]) : Identify(ev.o, ev.u, ev.v, ev.eb, ev.ret, k)
    \/ IsEv("reste") /\ RestoreEdge(ev.o)
    \/ IsEv("restv") /\ RestoreVertex(ev.o, ev.ret)
    \/ IsEv("restall") /\ RestoreAll(ev.o, ev.ret)
    \/ IsEv("copy")  /\ Copy(ev.o, ev.s, ev.ret, CapOf(ev.o))
    \/ IsEv("dup")   /\ Dup(ev.o, ev.s, CapOf(ev.o))
    \/ IsEv("copyadj") /\ CopyAdj(ev.o, ev.s, ev.ret, CapOf(ev.o), DirsOf(ev.o))
    \/ IsEv("attach") /\ Attach(ev.o, ev.f, ev.ret)
    \/ IsEv("detach") /\ Detach(ev.o, ev.f)
Seen == IF ev.ev = "begin" THEN TRUE
        ELSE /\ {ev.obs[k].o : k \in 1..Len(ev.obs)} = DOMAIN objs'
             /\ Len(ev.obs) = Cardinality(DOMAIN objs')
             /\ \A k \in 1..Len(ev.obs) : Shows(objs'[ev.obs[k].o], ev.obs[k])
TInit == objs = EmptyF /\ i = 1
TNext == Act /\ (Seen) = TRUE
TSpec == TInit /\ [][TNext]_<<objs, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
