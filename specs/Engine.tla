------------------------------- MODULE Engine -------------------------------
(* One step of a backend over a whole network: populations take the impacts  *)
(* on the wire, fire, spikes cross the synapses and come due later.          *)
(*                                                                           *)
(* Network description (record net):                                         *)
(*   pops  : sequence of [id, kind, n : sequence of neuron records]          *)
(*   projs : sequence of [id, kind in {"delta","sr","add"}, pre, post,       *)
(*           locked, src : sequence of sender names, only : sequence of      *)
(*           senders that are used for learning only,                        *)
(*           syn : sequence of [s, d, dl, ty]]                               *)
(* Weights are kept apart: w[p][i] = <<bit pattern, fixed point>>.           *)
(* Indexes inside messages count from 0, sequences here from 1.              *)
EXTENDS Neuron, SequencesExt, FiniteSets, TLC

Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
BagOf(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
RECURSIVE Count(_, _)
Count(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + Count(Tail(s), x)
Rep(x, k) == [i \in 1..k |-> x]

\* An impact as it can be seen: <<projection, synapse, bits, value, type, source, target, forcing, pre, post>>
\* Only plain delta projections force.
ImpactOf(pr, i, w) ==
    <<pr.id, i - 1, w[1], w[2], pr.syn[i].ty, pr.syn[i].s, pr.syn[i].d, pr.kind = "delta", pr.pre, pr.post>>

\* What the messages (sequence of <<sender, time, indexes>>) schedule on projection pr at step t.
Crossing(pr, w, msgs, t) ==
    LET mine == SelectSeq(msgs, LAMBDA m : m[1] \in ToSet(pr.src) /\ m[1] \notin ToSet(pr.only))
        idx == TLCEval(Flat([i \in DOMAIN mine |-> mine[i][3]]))
    IN IF idx = <<>> THEN <<>> ELSE Flat([i \in DOMAIN pr.syn |->
             Rep([due |-> t + pr.syn[i].dl - 1, im |-> ImpactOf(pr, i, w[i])], Count(idx, pr.syn[i].s))])

\* impacts on the wire for population id, and among them those for neuron j (from 0)
To(wire, id) == SelectSeq(wire, LAMBDA m : m[10] = id)
On(mine, j) == LET x == SelectSeq(mine, LAMBDA m : m[7] = j)
               IN [i \in DOMAIN x |-> [v |-> x[i][4], ty |-> x[i][5], f |-> x[i][8]]]

\* is there an unlocked resource-STDP projection into the population
PlasticInto(net, id) == \E i \in DOMAIN net.projs : /\ net.projs[i].post = id
                                                    /\ net.projs[i].kind = "sr"
                                                    /\ ~net.projs[i].locked

\* all populations after a step: sequence of sequences of [n, sp, ok]
PopStep(net, st, wire) ==
    [p \in DOMAIN net.pops |->
        LET plastic == PlasticInto(net, net.pops[p].id)
            mine == To(wire, net.pops[p].id)
        IN [j \in DOMAIN st[p] |-> NeuronStepT(net.pops[p].kind, st[p][j], On(mine, j - 1), plastic)]]
=============================================================================
