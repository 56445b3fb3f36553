----------------------------- MODULE Projection -----------------------------
(***************************************************************************)
(* Projections as keyed, ordered collections of connections.               *)
(* A connection is <<source neuron, target neuron, parameter tag>>; the    *)
(* tag stands for the whole parameter set of the connection.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLE prj       \* name -> [uid, pre, post, c, locked]
EmptyF == [x \in {} |-> x]

PInit == prj = EmptyF
Given(list) == SelectSeq(list, LAMBDA s : s # <<>>)    \* a generator may give nothing

Put(p, r) == prj' = (p :> r) @@ prj
SetC(p, c) == prj' = [prj EXCEPT ![p].c = c]

Make(p, pre, post, list) ==
    Put(p, [uid |-> p, pre |-> pre, post |-> post, c |-> Given(list), locked |-> TRUE])
Add(p, list) == SetC(p, prj[p].c \o Given(list))
AddCount(list) == Len(Given(list))
\* A generator that fails: what it gave before may or may not have been added, nothing else changes.
AddFailed(p, list, at) == \E k \in 0 .. at : SetC(p, prj[p].c \o Given(SubSeq(list, 1, k)))

Keep(p, T(_)) == SelectSeq(prj[p].c, T)
Without(p, T(_)) == Len(prj[p].c) - Len(Keep(p, T))     \* number removed when only T is kept

DropAt(p, i) == i < Len(prj[p].c) /\ SetC(p, SubSeq(prj[p].c, 1, i) \o SubSeq(prj[p].c, i + 2, Len(prj[p].c)))
RemoveIf(p, T(_)) == SetC(p, Keep(p, LAMBDA s : ~T(s)))
RemoveCount(p, T(_)) == Len(Keep(p, T))
Clear(p) == SetC(p, <<>>)
SetParams(p, i, v) == SetC(p, [prj[p].c EXCEPT ![i + 1] = <<@[1], @[2], v>>])
Copy(p, to) == Put(to, prj[p])
Move(p, to) == prj' = (to :> prj[p]) @@ Restrict(prj, DOMAIN prj \ {p})
SetLock(p, b) == prj' = [prj EXCEPT ![p].locked = b]

\* Positions (from 0) of the connections whose field f (1 source, 2 target) is x, ascending
Positions(c, f, x) == LET S == {i \in DOMAIN c : c[i][f] = x}
                      IN [n \in 1 .. Cardinality(S) |-> (CHOOSE i \in S : Cardinality({j \in S : j < i}) = n - 1) - 1]
Find(p, by, x) == Positions(prj[p].c, IF by = "pre" THEN 1 ELSE 2, x)
=============================================================================
