---------------------------- MODULE NetworkTrace ----------------------------
EXTENDS Network, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<pops, projs, ins, outs, l>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Vals(f) == {f[u] : u \in DOMAIN f}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameReg(S, r) == /\ Len(r) = Cardinality(S)
                 /\ \A i \in DOMAIN r : Count(r, r[i]) = Cardinality({t \in S : <<t[1], t[2]>> = r[i]})
Matches ==
    /\ E.same /\ E.np = Len(E.pops) /\ E.nj = Len(E.projs)
    /\ Len(E.pops) = Cardinality(DOMAIN pops') /\ {E.pops[i] : i \in DOMAIN E.pops} = Vals(pops')
    /\ Len(E.projs) = Cardinality(DOMAIN projs') /\ {E.projs[i] : i \in DOMAIN E.projs} = Vals(projs')
    /\ SameReg(ins', E.ins) /\ SameReg(outs', E.outs)
Call(o, ok, bad) == Is(o) /\ ((E.res = "ok" /\ ok) \/ (E.res = "fail" /\ bad)) /\ Matches
PopR == [u |-> E.u, k |-> E.k, c |-> E.c]
ProjR == [u |-> E.u, k |-> E.k, pre |-> E.pre, post |-> E.post, c |-> E.c]
Get(o, f) == Is(o) /\ UNCHANGED nvars /\ Matches
             /\ IF CanGet(f, E.u, E.k, E.how) THEN E.res = f[E.u] ELSE E.res = "fail"
Next ==
    \/ Is("new") /\ pops' = EmptyF /\ projs' = EmptyF /\ ins' = {} /\ outs' = {} /\ Matches
    \/ Call("addpop", AddPop(PopR), AddPopFails(E.u))
    \/ Call("addproj", AddProj(ProjR), AddProjFails(E.u))
    \/ Call("connect", Connect(ProjR), ConnectFails(E.pre, E.post))
    \/ Call("rmpop", RmPop(E.u), RmPopFails(E.u))
    \/ Call("rmproj", RmProj(E.u), RmProjFails(E.u))
    \/ Call("editpop", EditPop(E.u, E.c), RmPopFails(E.u))
    \/ Call("editproj", EditProj(E.u, E.c), RmProjFails(E.u))
    \/ Call("inch", InCh(E.ch, E.u), InChFails(E.u))
    \/ Call("outch", OutCh(E.ch, E.u), OutChFails(E.u))
    \/ Call("copynet", UNCHANGED nvars, FALSE)
    \/ Get("getpop", pops) \/ Get("getproj", projs)
    \/ Is("haspop") /\ E.res = (IF E.u \in DOMAIN pops THEN "yes" ELSE "no") /\ UNCHANGED nvars /\ Matches
    \/ Is("hasproj") /\ E.res = (IF E.u \in DOMAIN projs THEN "yes" ELSE "no") /\ UNCHANGED nvars /\ Matches
TraceSpec == NInit /\ l = 1 /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
