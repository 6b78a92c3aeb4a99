----------------------------- MODULE TraceEmbed -----------------------------
(* Validates a recorded trace of embedding runs against EmbedMachine.        *)
EXTENDS EmbedMachine, Json, IOUtils
CONSTANT Obl
VARIABLE i

Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1

TInit == EmInit /\ i = 1
TNext ==
    \/ IsEv("load")  /\ Load(ev.n, ev.es)
    \/ IsEv("embed") /\ Embed(Obl, ev.alg, ev.ret, ev.adj, ev.ix, ev.cert, ev.ref, ev.wit)
                     /\ (("emb" \in Obl /\ ev.ret = OK /\ ev.alg \in {"p", "o", "d"}) => ev.M = Len(ges))
    \/ IsEv("check") /\ IF "chk" \in Obl THEN Check(ev.alg, ev.ret) ELSE UNCHANGED emVars
    \/ IsEv("sort")  /\ IF "sort" \in Obl \/ "vis" \in Obl THEN Sort(ev.ret, ev.adj, ev.ix) ELSE UNCHANGED emVars
    \/ IsEv("vis")   /\ IF "vis" \in Obl THEN Visible(ev.vis) ELSE UNCHANGED emVars
    \/ IsEv("free")  /\ Free
TSpec == TInit /\ [][TNext]_<<emVars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
