----------------------------- MODULE Population -----------------------------
(* Populations as keyed, ordered collections of neurons (parameter tags).    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLE pop       \* name -> [uid, c]
EmptyF == [x \in {} |-> x]
PInit == pop = EmptyF
Given(list) == SelectSeq(list, LAMBDA s : s # -1)
Put(p, r) == pop' = (p :> r) @@ pop
SetC(p, c) == pop' = [pop EXCEPT ![p].c = c]
Make(p, list) == Put(p, [uid |-> p, c |-> Given(list)])
Add(p, list) == SetC(p, pop[p].c \o Given(list))
\* remove the neurons at the given positions (from 0): exactly those, others keep their order
Rest(c, S) == LET keep == {i \in DOMAIN c : (i - 1) \notin S}
              IN [n \in 1 .. Cardinality(keep) |-> c[CHOOSE i \in keep : Cardinality({j \in keep : j < i}) = n - 1]]
RemoveMany(p, S) == SetC(p, Rest(pop[p].c, S))
SetOne(p, i, v) == SetC(p, [pop[p].c EXCEPT ![i + 1] = v])
SetAll(p, list) == SetC(p, list)
Copy(p, to) == Put(to, pop[p])
Move(p, to) == pop' = (to :> pop[p]) @@ Restrict(pop, DOMAIN pop \ {p})
=============================================================================
