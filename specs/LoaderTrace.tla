----------------------------- MODULE LoaderTrace -----------------------------
EXTENDS Loader, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<loaders, bes, used, eps, l>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Matches == TRUE = (
    /\ Len(E.st) = Cardinality(DOMAIN bes')
    /\ \A i \in DOMAIN E.st : LET r == E.st[i] IN
          /\ r.b \in DOMAIN bes'
          /\ r.uid = bes'[r.b].uid /\ r.kind = bes'[r.b].kind /\ r.step = bes'[r.b].step
          /\ r.count = 1 )
UidOf(b) == IF \E i \in DOMAIN E.st : E.st[i].b = b THEN (CHOOSE r \in {E.st[i] : i \in DOMAIN E.st} : r.b = b).uid ELSE "none"
Next ==
    \/ Is("new") /\ loaders' = {} /\ bes' = EmptyF /\ used' = {} /\ eps' = EmptyF /\ Matches
    \/ Is("loader") /\ NewLoader(E.l) /\ Matches
    \/ Is("droploader") /\ DropLoader(E.l) /\ Matches
    \/ Is("load") /\ Load(E.l, E.p, E.b, UidOf(E.b), E.res) /\ Matches
    \/ Is("is") /\ Ask(E.p, E.res) /\ Matches
    \/ Is("run") /\ Run(E.b, E.n) /\ Matches
    \/ Is("drop") /\ Drop(E.b) /\ Matches
    \/ Is("ep") /\ NewEp(E.b, E.e) /\ Matches
    \/ Is("use") /\ Use(E.e, E.got) /\ Matches
    \/ Is("dropep") /\ DropEp(E.e) /\ Matches
TraceSpec == LInit /\ l = 1 /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
