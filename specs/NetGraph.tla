------------------------------ MODULE NetGraph ------------------------------
(* A network as a graph: populations are nodes, projections edges. An end    *)
(* that is no population of the network is the outside, -1.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pops,   \* identifier -> [kind, size, name]
          prjs    \* identifier -> [kind, size, name, pre, post]
nvars == <<pops, prjs>>
EmptyF == [x \in {} |-> x]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
GInit == pops = EmptyF /\ prjs = EmptyF
AddPop(u, r) == u \notin DOMAIN pops /\ pops' = (u :> r) @@ pops /\ UNCHANGED prjs
AddPrj(u, r) == u \notin DOMAIN prjs /\ prjs' = (u :> r) @@ prjs /\ UNCHANGED pops
RmPop(u) == pops' = Drop(pops, u) /\ UNCHANGED prjs
RmPrj(u) == prjs' = Drop(prjs, u) /\ UNCHANGED pops

\* the name of an entity: its tag, unless there is none, it is empty ("_") or no text ("#")
Shown(name) == IF name \in {"-", "_", "#"} THEN "<uid>" ELSE name

\* nodes: a sequence [u, kind, size, name] that lists every population once
NodesRight(nodes) ==
    /\ Len(nodes) = Cardinality(DOMAIN pops)
    /\ {nodes[i].u : i \in DOMAIN nodes} = DOMAIN pops
    /\ \A i \in DOMAIN nodes : LET p == pops[nodes[i].u] IN
          nodes[i].kind = p.kind /\ nodes[i].size = p.size /\ nodes[i].name = Shown(p.name)
IndexOf(nodes, u) == IF \E i \in DOMAIN nodes : nodes[i].u = u THEN (CHOOSE i \in DOMAIN nodes : nodes[i].u = u) - 1 ELSE -1
EdgesRight(nodes, edges) ==
    /\ Len(edges) = Cardinality(DOMAIN prjs)
    /\ {edges[i].u : i \in DOMAIN edges} = DOMAIN prjs
    /\ \A i \in DOMAIN edges : LET j == prjs[edges[i].u] IN
          /\ edges[i].kind = j.kind /\ edges[i].size = j.size /\ edges[i].name = Shown(j.name)
          /\ edges[i].f = IndexOf(nodes, j.pre) /\ edges[i].t = IndexOf(nodes, j.post)

\* --- parts: links is a set of pairs of nodes, direction does not matter
Touch(links, S) == S \cup {x[1] : x \in {y \in links : y[2] \in S}} \cup {x[2] : x \in {y \in links : y[1] \in S}}
RECURSIVE Closure(_, _)
Closure(links, S) == LET T == Touch(links, S) IN IF T = S THEN S ELSE Closure(links, T)
Parts(nodes, links) == {Closure(links, {x}) : x \in nodes}
Increasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
Elems(s) == {s[i] : i \in DOMAIN s}
PartsRight(nodes, links, parts) ==
    /\ \A i \in DOMAIN parts : Increasing(parts[i])
    /\ {Elems(parts[i]) : i \in DOMAIN parts} = Parts(nodes, links)
    /\ Len(parts) = Cardinality(Parts(nodes, links))

\* --- positions: one point per node, within the margins, the picture as large as they allow
PointsRight(pts, n, w, h, m) ==
    /\ Len(pts) = n
    /\ \A i \in DOMAIN pts : pts[i][1] \in m .. (w - m) /\ pts[i][2] \in m .. (h - m)
    /\ n > 1 => /\ \E i \in DOMAIN pts : pts[i][1] = m
                /\ \E i \in DOMAIN pts : pts[i][2] = m
                /\ \E i \in DOMAIN pts : pts[i][1] >= w - m - 1 \/ pts[i][2] >= h - m - 1
=============================================================================
