----------------------------- MODULE HoldTrace ------------------------------
EXTENDS Hold, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<be, pops, projs, step, l>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Set(s) == {s[i] : i \in DOMAIN s}
NK(k) == CASE k = "B" -> 1 [] k = "SB" -> 2 [] k = "A" -> 3 [] k = "SA" -> 4 [] OTHER -> 5
SK(k) == CASE k = "D" -> 1 [] k = "AD" -> 2 [] OTHER -> 3
\* What is given: the place of each in its variant is the place of its kind in the list of all kinds.
Pops(a) == {[uid |-> a[i][1], kind |-> Neurons[NK(a[i][2])], size |-> a[i][3]] : i \in DOMAIN a}
Projs(a) == {[uid |-> a[i][1], kind |-> Synapses[SK(a[i][2])], pre |-> a[i][3], post |-> a[i][4], size |-> a[i][5],
              delay |-> a[i][6], locked |-> a[i][7], due |-> {}] : i \in DOMAIN a}
\* What the backend shows of itself.
Matches == TRUE = (
    /\ Known(pops') => /\ Len(E.pops) = Cardinality(pops')
                       /\ Set(E.pops) = {<<p.uid, p.kind, p.size>> : p \in pops'}
    /\ Known(projs') => /\ Len(E.projs) = Cardinality(projs')
                        /\ Set(E.projs) = {<<p.uid, p.kind, p.pre, p.post, p.size, p.locked>> : p \in projs'}
    /\ E.step = step' )
Seen == [k \in DOMAIN E.seen |-> [s |-> Set(E.seen[k].s), i |-> Set(E.seen[k].i)]]
Once == TRUE = (\A k \in DOMAIN E.seen : Len(E.seen[k].s) = Cardinality(Set(E.seen[k].s)) /\ Len(E.seen[k].i) = Cardinality(Set(E.seen[k].i)))
Lists == TRUE = (
    /\ Set(E.neurons) = {Neurons[k] : k \in {x \in DOMAIN Neurons : NeuronOk(E.be, Neurons[x])}}
    /\ Set(E.synapses) = {Synapses[k] : k \in {x \in DOMAIN Synapses : SynapseOk(E.be, Synapses[x])}}
    /\ Set(E.popidx) = {k - 1 : k \in {x \in DOMAIN Neurons : NeuronOk(E.be, Neurons[x])}}
    /\ Set(E.projidx) = {k - 1 : k \in {x \in DOMAIN Synapses : SynapseOk(E.be, Synapses[x])}}
    /\ Len(E.neurons) = Cardinality(Set(E.neurons)) /\ Len(E.synapses) = Cardinality(Set(E.synapses))
    /\ Len(E.popidx) = Len(E.neurons) /\ Len(E.projidx) = Len(E.synapses)
    /\ E.plast )
Next ==
    \/ Is("new") /\ be' = E.be /\ pops' = {} /\ projs' = {} /\ step' = 0 /\ Lists /\ Matches
    \/ Is("pops") /\ TRUE = (\A i \in DOMAIN E.asked : E.asked[i][4] = NK(E.asked[i][2]) - 1) /\ LoadPops(Pops(E.asked), E.res) /\ Matches
    \/ Is("projs") /\ TRUE = (\A i \in DOMAIN E.asked : E.asked[i][8] = SK(E.asked[i][2]) - 1) /\ LoadProjs(Projs(E.asked), E.res) /\ Matches
    \/ Is("rmpops") /\ RemovePops(Set(E.us)) /\ Matches
    \/ Is("rmprojs") /\ RemoveProjs(Set(E.us)) /\ Matches
    \/ Is("learn") /\ Learning(E.on) /\ Matches
    \/ Is("run") /\ Once /\ RunMany(Seen) /\ Matches
TraceSpec == HInit("st") /\ l = 1 /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
