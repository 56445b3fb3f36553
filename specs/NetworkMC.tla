------------------------------ MODULE NetworkMC ------------------------------
EXTENDS Network, Json
CONSTANTS PopIds, ProjIds, Kinds, Chans, MaxOps, MaxReg, GEN
VARIABLE hist
mv == <<pops, projs, ins, outs, hist>>
H(x) == hist' = IF GEN THEN Append(hist, x) ELSE hist
MCInit == NInit /\ hist = <<>>
Step ==
    \/ \E u \in PopIds, k \in Kinds, how \in {"variant", "move", "copy"} :
          /\ \/ AddPop([u |-> u, k |-> k, c |-> <<1, 2>>]) \/ AddPopFails(u)
          /\ H(<<"addpop", u, k, "1,2", how>>)
    \/ \E u \in ProjIds, k \in Kinds, how \in {"variant", "move", "copy", "gen"}, a, b \in PopIds :
          /\ \/ AddProj([u |-> u, k |-> k, pre |-> a, post |-> b, c |-> <<>>]) \/ AddProjFails(u)
          /\ H(<<"addproj", u, k, a, b, "-", how>>)
    \/ \E u \in PopIds : (RmPop(u) \/ RmPopFails(u)) /\ H(<<"rmpop", u>>)
    \/ \E u \in ProjIds : (RmProj(u) \/ RmProjFails(u)) /\ H(<<"rmproj", u>>)
    \/ \E u \in PopIds, k \in Kinds, how \in {"const", "ref", "variant"} : UNCHANGED nvars /\ H(<<"getpop", u, k, how>>)
    \/ \E u \in ProjIds, k \in Kinds, how \in {"const", "ref", "variant"} : UNCHANGED nvars /\ H(<<"getproj", u, k, how>>)
    \/ \E ch \in Chans, u \in ProjIds : Cardinality(ins) < MaxReg /\ (InCh(ch, u) \/ InChFails(u)) /\ H(<<"inch", ch, u, "uid">>)
    \/ \E ch \in Chans, u \in PopIds : Cardinality(outs) < MaxReg /\ (OutCh(ch, u) \/ OutChFails(u)) /\ H(<<"outch", ch, u, "uid">>)
Next == Len(hist) < MaxOps /\ Step
Spec == MCInit /\ [][Next]_mv
ProjsAndPopsApart == DOMAIN pops \subseteq PopIds /\ DOMAIN projs \subseteq ProjIds
\* one call changes at most one entry of one collection
Changed(f, g) == {u \in DOMAIN f \union DOMAIN g : ~(u \in DOMAIN f /\ u \in DOMAIN g /\ f[u] = g[u])}
Bystander == [][Cardinality(Changed(pops, pops')) + Cardinality(Changed(projs, projs')) <= 1 /\ ins \subseteq ins' /\ outs \subseteq outs']_mv
NoOverwrite == [][\A u \in DOMAIN pops \intersect DOMAIN pops' : pops[u].k = pops'[u].k]_mv
Emit == (GEN /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
