---------------------------- MODULE TraceStreams ----------------------------
EXTENDS Streams, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[i]
IsEv(name) == i <= Len(Trace) /\ ev.ev = name /\ i' = i + 1
SeenB == /\ ev.full = buf'[ev.b] /\ ev.size = Len(buf'[ev.b]) /\ ev.cap >= ev.size
         /\ ev.pos = rp'[ev.b] /\ ev.tail = Drop(buf'[ev.b], rp'[ev.b])
TInit == rest = <<>> /\ can = <<>> /\ text = <<>> /\ buf = <<>> /\ rp = <<>> /\ i = 1
TNext ==
    \/ IsEv("begin") /\ rest' = <<ev.in, ev.in>> /\ can' = <<FALSE, FALSE>> /\ text' = <<<<>>, <<>>>> /\ buf' = <<<<>>, <<>>>> /\ rp' = <<0, 0>>
    \/ IsEv("getc") /\ Getc(ev.r, ev.out)
    \/ IsEv("ungetc") /\ Ungetc(ev.r, ev.ch, ev.out)
    \/ IsEv("fgets") /\ Fgets(ev.r, ev.cnt, ev.ok, ev.got)
    \/ IsEv("fputs") /\ Fputs(ev.w, ev.s, ev.ret)
    \/ IsEv("final") /\ ev.ok /\ Final(ev.w, ev.s)
    \* exactly one of file and string makes a stream; unusable arguments are refused
    \/ IsEv("misuse") /\ ev.std = 1 /\ ev.both = 0 /\ ev.none = 0 /\ ev.nullgets = 0 /\ ev.nullputs = -1 /\ ev.startunget = -1 /\ UNCHANGED svars
    \* a stream releases its file with itself, and never the standard ones
    \/ IsEv("freed") /\ ev.open = 0 /\ ev.null = 1 /\ UNCHANGED svars
    \/ IsEv("bconcat") /\ ev.ret = 1 /\ BConcat(ev.b, ev.s) /\ SeenB
    \/ IsEv("bclear") /\ BClear(ev.b) /\ SeenB
    \/ IsEv("btake") /\ BTake(ev.b, ev.s) /\ SeenB
    \/ IsEv("bcopy") /\ ev.ret = 1 /\ BCopy(ev.b, ev.src) /\ SeenB
    \/ IsEv("bskipws") /\ BSkipWs(ev.b) /\ SeenB
    \/ IsEv("bskipint") /\ BSkipInt(ev.b) /\ SeenB
    \/ IsEv("bskipchar") /\ BSkipChar(ev.b) /\ SeenB
    \/ IsEv("bsetpos") /\ BSetPos(ev.b, ev.pos) /\ SeenB
TSpec == TInit /\ [][TNext]_<<svars, i>>
Accepted == LET d == TLCGet("stats").diameter - 1
            IN PrintT(<<"TRACE_RESULT", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
