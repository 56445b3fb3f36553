---------------------------- MODULE NetGraphTrace ----------------------------
EXTENDS NetGraph, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<pops, prjs, l>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Elems(s) \cup Elems(t) : Count(s, x) = Count(t, x)
\* the ends of the edges into and out of a node
Into(e, x) == LET I == SelectSeq(e, LAMBDA y : y.t = x) IN [i \in DOMAIN I |-> I[i].f]
OutOf(e, x) == LET O == SelectSeq(e, LAMBDA y : y.f = x /\ y.t >= 0) IN [i \in DOMAIN O |-> O[i].t]
\* the description: the parts one after the other, a line per population
Lines == SelectSeq(E.text, LAMBDA r : r # <<>>)
TextRight ==
    /\ Len(Lines) = Len(E.nodes)
    /\ [i \in DOMAIN Lines |-> Lines[i][1][1]] \in {s \in {[i \in DOMAIN Lines |-> Lines[i][1][1]]} : Elems(s) = 0 .. Len(E.nodes) - 1}
    /\ \A i \in DOMAIN Lines : LET x == Lines[i][1][1] IN
          /\ Len(Lines[i][1]) = 2 /\ Lines[i][1][2] = E.nodes[x + 1].size
          /\ SameBag(Lines[i][2], Into(E.edges, x))
          /\ SameBag(Lines[i][3], OutOf(E.edges, x))
    \* populations of one part are described together
    /\ \A i, j \in DOMAIN E.text : i < j /\ E.text[i] # <<>> /\ E.text[j] # <<>> =>
          ((\E k \in DOMAIN E.parts : {E.text[i][1][1], E.text[j][1][1]} \subseteq Elems(E.parts[k]))
             <=> \A k \in i .. j : E.text[k] # <<>>)
GraphRight == TRUE = (
    /\ NodesRight(E.nodes)
    /\ EdgesRight(E.nodes, E.edges)
    /\ PartsRight(0 .. Len(E.nodes) - 1, {<<e.f, e.t>> : e \in {y \in Elems(E.edges) : y.f >= 0 /\ y.t >= 0}}, E.parts)
    /\ TextRight
    /\ Len(E.pos) = Len(E.parts)
    /\ \A i \in DOMAIN E.pos : PointsRight(E.pos[i], Len(E.parts[i]), E.w, E.h, E.m) )
Next ==
    \/ Is("new") /\ pops' = EmptyF /\ prjs' = EmptyF
    \/ Is("pop") /\ AddPop(E.u, [kind |-> E.kind, size |-> E.size, name |-> E.name])
    \/ Is("proj") /\ AddPrj(E.u, [kind |-> E.kind, size |-> E.size, name |-> E.name, pre |-> E.pre, post |-> E.post])
    \/ Is("rmpop") /\ RmPop(E.u)
    \/ Is("rmproj") /\ RmPrj(E.u)
    \/ Is("graph") /\ GraphRight /\ UNCHANGED nvars
TraceSpec == GInit /\ l = 1 /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
