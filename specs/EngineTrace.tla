---------------------------- MODULE EngineTrace ----------------------------
(* Is a recorded run of a real backend a behaviour of the engine?            *)
EXTENDS Engine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, st, w, wire, pend, t, free
vars == <<l, net, st, w, wire, pend, t, free>>
\* free: number of neuron steps in which the numbers were not exact, so that the real ones were adopted
E == Trace[l]

Init == l = 1 /\ net = [pops |-> <<>>, projs |-> <<>>] /\ st = <<>> /\ w = <<>> /\ wire = <<>> /\ pend = <<>> /\ t = 0 /\ free = 0

Reset ==
    /\ E.ev = "reset"
    /\ net' = E.net
    /\ st' = [p \in DOMAIN E.net.pops |-> E.net.pops[p].n]
    /\ w' = E.net.w
    \* what was loaded is what is there
    /\ \A p \in DOMAIN E.st : \A j \in DOMAIN E.st[p] : E.st[p][j] = Obs(E.net.pops[p].kind, E.net.pops[p].n[j])
    /\ E.w = E.net.w
    /\ wire' = <<>> /\ pend' = <<>> /\ t' = 0 /\ free' = free

Static(pr) == pr.kind = "delta" \/ pr.locked
\* weights used by the spikes that cross in this step: resource learning happens before, additive learning after
Used(p) == IF net.projs[p].kind = "add" THEN w[p] ELSE E.w[p]

Match(k, r, o) == LET s == Obs(k, r.n) IN
    ~r.ok \/ (\A i \in DOMAIN s : s[i] = Bad \/ s[i] = o[i])

\* additional threshold of a firing neuron with plastic connections: whatever learning made of it
Learned(k, r, o, plastic) ==
    IF IsSr(k) /\ r.sp /\ plastic THEN [r EXCEPT !.n.add = Fx(IF k = "srblifat" THEN o[2] ELSE o[3])] ELSE r

Step ==
    /\ E.ev = "step"
    /\ E.t = t
    /\ Len(E.st) = Len(net.pops) /\ Len(E.sp) = Len(net.pops) /\ Len(E.w) = Len(net.projs)
    /\ LET kind(p) == net.pops[p].kind
           res == TLCEval([p \in DOMAIN net.pops |->
                     LET plastic == PlasticInto(net, net.pops[p].id)
                         mine == TLCEval(To(wire, net.pops[p].id))
                     IN [j \in DOMAIN st[p] |->
                          Learned(kind(p), NeuronStepT(kind(p), st[p][j], On(mine, j - 1), plastic), E.st[p][j], plastic)]])
           msgs == TLCEval(E.in \o Flat([p \in DOMAIN net.pops |->
                        IF E.sp[p] = <<>> THEN <<>> ELSE <<<<net.pops[p].id, t, E.sp[p]>>>>]))
           sched == TLCEval(pend \o Flat([q \in DOMAIN net.projs |-> Crossing(net.projs[q], Used(q), msgs, t)]))
           now == SelectSeq(sched, LAMBDA x : x.due = t)
       IN /\ TRUE = \A p \in DOMAIN net.pops :
             LET fired == ToSet(E.sp[p]) IN
                /\ Len(E.st[p]) = Len(st[p])
                /\ Len(E.sp[p]) = Cardinality(fired)                        \* each index once
                /\ \A x \in fired : 0 <= x /\ x < Len(st[p])
                /\ \A j \in DOMAIN st[p] :
                      LET r == res[p][j] IN
                      /\ r.ok => (r.sp <=> (j - 1) \in fired)
                      /\ Match(kind(p), r, E.st[p][j])
          /\ E.odd = 0
          /\ TRUE = \A q \in DOMAIN net.projs : Static(net.projs[q]) => E.w[q] = w[q]
          /\ BagOf(E.im) = BagOf([i \in DOMAIN now |-> now[i].im])
          /\ st' = [p \in DOMAIN net.pops |-> [j \in DOMAIN st[p] |->
                      LET x == res[p][j] IN
                      IF x.ok /\ Exact(kind(p), x.n) THEN x.n ELSE Adopt(kind(p), x.n, E.st[p][j])]]
          /\ free' = free + Cardinality({pj \in UNION {{<<p, j>> : j \in DOMAIN st[p]} : p \in DOMAIN net.pops} : ~res[pj[1]][pj[2]].ok})
          /\ pend' = SelectSeq(sched, LAMBDA x : x.due # t)
          /\ wire' = E.im
    /\ w' = E.w
    /\ t' = t + 1
    /\ UNCHANGED net

\* Several steps in which nothing is due and nobody fires.
RECURSIVE After(_, _, _)
After(k, n, i) ==
    IF i = 0 THEN [ok |-> TRUE, n |-> n]
    ELSE LET r == TLCEval(NeuronStepT(k, n, <<>>, FALSE)) IN
         IF ~r.ok \/ r.sp THEN [ok |-> FALSE, n |-> n] ELSE IF r.n = n THEN [ok |-> TRUE, n |-> n] ELSE After(k, r.n, i - 1)
Calm ==
    /\ E.ev = "calm"
    /\ E.t = t /\ E.to = t + E.n /\ E.seen = 0
    /\ wire = <<>> /\ \A i \in DOMAIN pend : pend[i].due >= t + E.n
    /\ LET res == TLCEval([p \in DOMAIN net.pops |-> [j \in DOMAIN st[p] |-> After(net.pops[p].kind, st[p][j], E.n)]]) IN
          /\ TRUE = \A p \in DOMAIN net.pops : \A j \in DOMAIN st[p] : res[p][j].ok /\ Match(net.pops[p].kind, res[p][j], E.st[p][j])
          /\ st' = [p \in DOMAIN net.pops |-> [j \in DOMAIN st[p] |-> res[p][j].n]]
    /\ E.w = w
    /\ t' = t + E.n
    /\ UNCHANGED <<net, w, wire, pend, free>>

\* learning switched off or on for every projection
Lock ==
    /\ E.ev \in {"lock", "unlock"}
    /\ net' = [net EXCEPT !.projs = [q \in DOMAIN @ |-> [@[q] EXCEPT !.locked = (E.ev = "lock")]]]
    /\ UNCHANGED <<st, w, wire, pend, t, free>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Step \/ Calm \/ Lock)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
\* the share of undecided neuron steps, printed at the end
Free == (l = Len(Trace) + 1) => PrintT(<<"FREE", free>>)
=============================================================================
