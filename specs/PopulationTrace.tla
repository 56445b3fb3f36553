--------------------------- MODULE PopulationTrace ---------------------------
EXTENDS Population, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<pop, l>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Matches ==
    /\ {E.st[i].p : i \in DOMAIN E.st} = DOMAIN pop'
    /\ Len(E.st) = Cardinality(DOMAIN pop')
    /\ \A i \in DOMAIN E.st :
         LET r == E.st[i]  s == pop'[r.p] IN r.uid = s.uid /\ r.size = Len(s.c) /\ r.same /\ r.c = s.c
Next ==
    \/ Is("new") /\ pop' = EmptyF /\ Matches
    \/ Is("make") /\ Make(E.p, E.list) /\ Matches
    \/ Is("add") /\ Add(E.p, E.list) /\ Matches
    \/ Is("rm") /\ RemoveMany(E.p, {E.i}) /\ Matches
    \/ Is("rmmany") /\ RemoveMany(E.p, {E.is[i] : i \in DOMAIN E.is}) /\ Matches
    \/ Is("set") /\ SetOne(E.p, E.i, E.v) /\ Matches
    \/ Is("setall") /\ SetAll(E.p, E.list) /\ Matches
    \/ (Is("copy") \/ Is("assign")) /\ Copy(E.p, E.to) /\ Matches
    \/ Is("move") /\ Move(E.p, E.to) /\ Matches
TraceSpec == PInit /\ l = 1 /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
