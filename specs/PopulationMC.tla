---------------------------- MODULE PopulationMC ----------------------------
EXTENDS Population, Json
CONSTANTS Names, MaxLen, MaxOps, GEN
VARIABLES hist, tag
mv == <<pop, hist, tag>>
H(x) == hist' = IF GEN THEN Append(hist, x) ELSE hist
Ix(p) == 0 .. (Len(pop[p].c) - 1)
RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "-" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "," \o Join(Tail(s))
MCInit == PInit /\ hist = <<>> /\ tag = 0
Step ==
    \/ \E p \in Names \ DOMAIN pop : Make(p, <<tag, -1, tag + 1>>) /\ tag' = tag + 2
          /\ H(<<"make", p, "uid", ToString(tag) \o ",_," \o ToString(tag + 1)>>)
    \/ \E p \in DOMAIN pop : Len(pop[p].c) < MaxLen /\ Add(p, <<tag>>) /\ tag' = tag + 1 /\ H(<<"add", p, tag>>)
    \/ \E p \in DOMAIN pop : \E i \in Ix(p) : RemoveMany(p, {i}) /\ UNCHANGED tag /\ H(<<"rm", p, i>>)
    \/ \E p \in DOMAIN pop : \E S \in SUBSET Ix(p) : \E o \in {TRUE, FALSE} :
          /\ RemoveMany(p, S) /\ UNCHANGED tag
          /\ H(<<"rmmany", p, Join(SortSeq(SetToSeq(S), LAMBDA a, b : IF o THEN a < b ELSE a > b))>>)
    \/ \E p \in DOMAIN pop : \E i \in Ix(p) : SetOne(p, i, tag) /\ tag' = tag + 1 /\ H(<<"set", p, i, tag, "call">>)
    \/ \E p, o \in Names : p \in DOMAIN pop /\ p # o /\ Copy(p, o) /\ UNCHANGED tag
          /\ H(<<IF o \in DOMAIN pop THEN "assign" ELSE "copy", p, o>>)
Next == Len(hist) < MaxOps /\ Step
Spec == MCInit /\ [][Next]_mv
Bounded == tag <= MaxOps
\* tags are unique within a population unless set twice: nothing is duplicated
NoDuplicates == \A p \in DOMAIN pop : \A i, j \in DOMAIN pop[p].c : i # j => pop[p].c[i] # pop[p].c[j]
\* a removal removes exactly the named ones and keeps the order of the rest
SubSequence(a, b) == \A i, j \in DOMAIN a : i < j =>
    \E x, y \in DOMAIN b : x < y /\ b[x] = a[i] /\ b[y] = a[j]
RemovalKeepsOrder == [][\A p \in DOMAIN pop \intersect DOMAIN pop' :
    (Len(pop'[p].c) < Len(pop[p].c) /\ ~\E o \in DOMAIN pop : pop[o] = pop'[p]) => SubSequence(pop'[p].c, pop[p].c) ]_mv
Emit == (GEN /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
