--------------------------- MODULE ProjectionTrace ---------------------------
EXTENDS Projection, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<prj, l>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Matches ==
    /\ {E.st[i].p : i \in DOMAIN E.st} = DOMAIN prj'
    /\ Len(E.st) = Cardinality(DOMAIN prj')
    /\ \A i \in DOMAIN E.st :
         LET r == E.st[i]  s == prj'[r.p] IN
         /\ r.uid = s.uid /\ r.pre = s.pre /\ r.post = s.post /\ r.locked = s.locked
         /\ r.size = Len(s.c) /\ r.same /\ r.c = s.c
M == E.mod
Next ==
    \/ Is("new") /\ prj' = EmptyF /\ Matches
    \/ Is("make") /\ Make(E.p, E.pre, E.post, E.list) /\ Matches
    \/ Is("add") /\ E.n = AddCount(E.list) /\ Add(E.p, E.list) /\ Matches
    \/ Is("addthrow") /\ (IF E.at < Len(E.list)
                          THEN E.n = -1 /\ AddFailed(E.p, E.list, E.at)
                          ELSE E.n = AddCount(E.list) /\ Add(E.p, E.list)) /\ Matches
    \/ Is("rm") /\ DropAt(E.p, E.i) /\ Matches
    \/ Is("rmif") /\ E.n = RemoveCount(E.p, LAMBDA s : s[3] % E.mod = E.rem)
                  /\ RemoveIf(E.p, LAMBDA s : s[3] % E.mod = E.rem) /\ Matches
    \/ Is("rmpre") /\ E.n = RemoveCount(E.p, LAMBDA s : s[1] = E.x) /\ RemoveIf(E.p, LAMBDA s : s[1] = E.x) /\ Matches
    \/ Is("rmpost") /\ E.n = RemoveCount(E.p, LAMBDA s : s[2] = E.x) /\ RemoveIf(E.p, LAMBDA s : s[2] = E.x) /\ Matches
    \/ Is("clear") /\ Clear(E.p) /\ Matches
    \/ Is("find") /\ E.res = Find(E.p, E.by, E.x) /\ UNCHANGED prj /\ Matches
    \/ Is("set") /\ SetParams(E.p, E.i, E.v) /\ Matches
    \/ (Is("copy") \/ Is("assign")) /\ Copy(E.p, E.to) /\ Matches
    \/ Is("move") /\ Move(E.p, E.to) /\ Matches
    \/ Is("lock") /\ SetLock(E.p, TRUE) /\ Matches
    \/ Is("unlock") /\ SetLock(E.p, FALSE) /\ Matches
TraceSpec == PInit /\ l = 1 /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
