----------------------------- MODULE NetGraphMC -----------------------------
(* How the graph is divided: pick a node nobody has, follow links in either  *)
(* direction with a worklist, take what was reached as a part, repeat. The   *)
(* outside (node N) takes no part and joins nothing. Checked for every graph *)
(* of N nodes against the definition of parts.                               *)
EXTENDS NetGraph
CONSTANTS N, SELF, OUTSIDE
VARIABLES links,      \* pairs <<from, to>>; from may be N, the outside
          left, todo, done, parts
wv == <<pops, prjs, links, left, todo, done, parts>>
Nodes == 0 .. N - 1
Possible == {x \in (Nodes \cup (IF OUTSIDE THEN {N} ELSE {})) \X Nodes : SELF \/ x[1] # x[2]}
Init == GInit /\ links \in SUBSET Possible /\ left = Nodes /\ todo = {} /\ done = {} /\ parts = {}
Near(x) == ({y[2] : y \in {z \in links : z[1] = x}} \cup {y[1] : y \in {z \in links : z[2] = x}}) \ {N}
Pick == todo = {} /\ done = {} /\ \E x \in left : todo' = {x} /\ UNCHANGED <<links, left, done, parts>>
Follow == \E x \in todo : todo' = (todo \cup (Near(x) \ done)) \ {x} /\ done' = done \cup {x} /\ UNCHANGED <<links, left, parts>>
Take == todo = {} /\ done # {} /\ parts' = parts \cup {done} /\ left' = left \ done /\ done' = {} /\ UNCHANGED <<links, todo>>
Next == (Pick \/ Follow \/ Take) /\ UNCHANGED nvars
Spec == Init /\ [][Next]_wv /\ WF_wv(Next)
Disjoint == \A a, b \in parts : a # b => a \cap b = {}
Ended == left = {} /\ todo = {} /\ done = {}
Inner == {x \in links : x[1] # N}
Divided == Ended => parts = Parts(Nodes, Inner)
PartOfParts == parts \subseteq Parts(Nodes, Inner)
Ends == <>Ended
=============================================================================
