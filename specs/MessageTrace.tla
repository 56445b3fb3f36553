---------------------------- MODULE MessageTrace ----------------------------
EXTENDS Message, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Next ==
    \/ Is("new")
    \/ Is("pack") /\ E.out = Extract(Pack(E.in))
    \/ Is("text") /\ E.out = Read(E.in.k, Text(E.in), E.old)
    \* several messages one after another in one stream
    \/ Is("texts") /\ Len(E.out) = Len(E.in) /\ \A i \in DOMAIN E.in : E.out[i] = Read(E.in[i].k, Text(E.in[i]), <<>>)
    \/ Is("eq") /\ E.res = Equal(E.a, E.b) /\ E.back = E.res
    \/ Is("header") /\ E.out = E.in
TraceSpec == l = 1 /\ [][Next]_l
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
