------------------------------ MODULE EngineMC ------------------------------
(* Small networks under every input: each spike crosses each synapse once,   *)
(* after exactly its delay.  The wire is compared with a definition made     *)
(* from the history of spikes only.  Also the source of behaviours to replay.*)
EXTENDS Engine, Json, IOUtils
CONSTANTS MAXT, GEN   \* steps, generate behaviours
\* networks [pops, projs, w, alph]; alph: the inputs a step may have, each a sequence of <<channel, indexes>>
NETS == ndJsonDeserialize(IOEnv.NETS)
VARIABLES k, st, wire, pend, t, hist, ins
\* k: which network; hist[i]: messages of step i; ins: inputs so far
vars == <<k, st, wire, pend, t, hist, ins>>
net == NETS[k]
w == NETS[k].w

Init == k \in DOMAIN NETS /\ st = [p \in DOMAIN NETS[k].pops |-> NETS[k].pops[p].n]
        /\ wire = <<>> /\ pend = <<>> /\ t = 0 /\ hist = <<>> /\ ins = <<>>
Step(in) ==
    LET res == TLCEval(PopStep(net, st, wire))
        msgs == TLCEval([i \in DOMAIN in |-> <<in[i][1], t, in[i][2]>>] \o
                 Flat([p \in DOMAIN net.pops |->
                     LET f == SelectSeq([j \in DOMAIN st[p] |-> j], LAMBDA j : res[p][j].sp)
                     IN IF f = <<>> THEN <<>> ELSE <<<<net.pops[p].id, t, [i \in DOMAIN f |-> f[i] - 1]>>>>]))
        sched == TLCEval(pend \o Flat([q \in DOMAIN net.projs |-> Crossing(net.projs[q], w[q], msgs, t)]))
        now == SelectSeq(sched, LAMBDA x : x.due = t)
    IN /\ TRUE = \A p \in DOMAIN st : \A j \in DOMAIN st[p] : res[p][j].ok /\ Exact(net.pops[p].kind, res[p][j].n)
       /\ st' = [p \in DOMAIN st |-> [j \in DOMAIN st[p] |-> res[p][j].n]]
       /\ wire' = [i \in DOMAIN now |-> now[i].im]
       /\ pend' = SelectSeq(sched, LAMBDA x : x.due # t)
       /\ hist' = Append(hist, msgs)
       /\ t' = t + 1
       /\ ins' = IF GEN THEN Append(ins, in) ELSE <<>>
       /\ UNCHANGED k
Next == t < MAXT /\ \E i \in DOMAIN net.alph : Step(net.alph[i])
Spec == Init /\ [][Next]_vars

\* what has to be on the wire after the steps 0..t-1, by looking back from each synapse
SpikesOf(q, i, step) ==
    IF step < 0 \/ step >= Len(hist) THEN 0
    ELSE Count(Flat([m \in DOMAIN hist[step + 1] |->
                IF hist[step + 1][m][1] \in ToSet(net.projs[q].src) \ ToSet(net.projs[q].only) THEN hist[step + 1][m][3] ELSE <<>>]),
               net.projs[q].syn[i].s)
Due(now) == Flat(Flat([q \in DOMAIN net.projs |-> [i \in DOMAIN net.projs[q].syn |->
        Rep(ImpactOf(net.projs[q], i, w[q][i]), SpikesOf(q, i, now - net.projs[q].syn[i].dl))]]))
OnceAfterDelay == BagOf(wire) = BagOf(Due(t))
\* nothing is forgotten: what is pending is what the future looks back at
PendingComplete == \A d \in 0..10 :
    BagOf([i \in DOMAIN SelectSeq(pend, LAMBDA x : x.due = t + d) |-> SelectSeq(pend, LAMBDA x : x.due = t + d)[i].im])
        = BagOf(Due(t + 1 + d))
NoPast == \A i \in DOMAIN pend : pend[i].due >= t
OwnTarget == \A i \in DOMAIN wire : \E q \in DOMAIN net.projs : net.projs[q].id = wire[i][1] /\ net.projs[q].post = wire[i][10]

Fires == \E i \in DOMAIN hist : \E m \in DOMAIN hist[i] : hist[i][m][1] \in {net.pops[p].id : p \in DOMAIN net.pops}
Emit == (GEN /\ t = MAXT /\ Fires) => PrintT("BEH " \o ToJson(<<k>> \o ins))
=============================================================================
