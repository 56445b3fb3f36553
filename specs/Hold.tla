-------------------------------- MODULE Hold --------------------------------
(* What a backend holds and runs. It holds the populations and projections   *)
(* it was last given less those removed, runs exactly these, and takes every *)
(* kind it lists as supported and no other.                                  *)
(* The populations here fire all their neurons at every step; a projection   *)
(* sends one impact per synapse, `delay' steps (counted from 1, the step     *)
(* itself) after every step at which its presynaptic population fired.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES be,       \* kind of the backend, "st" or "mt"
          pops,     \* [uid, kind, size], each uid once; "?" after a failed load
          projs,    \* [uid, kind, pre, post, size, delay, locked, due]; due: steps at which impacts are to be sent
          step
hvars == <<be, pops, projs, step>>
Neurons == <<"BLIFATNeuron", "SynapticResourceSTDPBLIFATNeuron", "AltAILIF", "SynapticResourceSTDPAltAILIFNeuron", "LIFNeuron">>
Synapses == <<"DeltaSynapse", "AdditiveSTDPDeltaSynapse", "SynapticResourceSTDPDeltaSynapse">>
NeuronOk(b, k) == b = "st" \/ k \in {"BLIFATNeuron", "SynapticResourceSTDPBLIFATNeuron", "LIFNeuron"}
SynapseOk(b, k) == b = "st" \/ k \in {"DeltaSynapse", "SynapticResourceSTDPDeltaSynapse"}
Unknown == {[uid |-> "?"]}
Known(s) == s # Unknown
By(s, u) == CHOOSE x \in s : x.uid = u
Uids(s) == {x.uid : x \in s}

HInit(b) == be = b /\ pops = {} /\ projs = {} /\ step = 0

\* Loading replaces what was there. A kind that is not supported makes it fail.
LoadPops(new, res) ==
    /\ res = IF \A p \in new : NeuronOk(be, p.kind) THEN "ok" ELSE "fail"
    /\ pops' = IF res = "ok" THEN new ELSE Unknown
    /\ UNCHANGED <<be, projs, step>>
LoadProjs(new, res) ==
    /\ res = IF \A p \in new : SynapseOk(be, p.kind) THEN "ok" ELSE "fail"
    /\ projs' = IF res = "ok" THEN new ELSE Unknown
    /\ UNCHANGED <<be, pops, step>>
RemovePops(us) == pops' = {p \in pops : p.uid \notin us} /\ UNCHANGED <<be, projs, step>>
RemoveProjs(us) == projs' = {p \in projs : p.uid \notin us} /\ UNCHANGED <<be, pops, step>>
Learning(on) == projs' = {[p EXCEPT !.locked = ~on] : p \in projs} /\ UNCHANGED <<be, pops, step>>

\* One step: what is sent, and what is left to do.
Spikes(ps) == {<<p.uid, p.size>> : p \in {x \in ps : x.size > 0}}
Fed(j, ps) == \E p \in ps : p.uid = j.pre /\ p.size > 0
After(j, ps, t) ==
    LET d == IF Fed(j, ps) /\ j.size > 0 THEN j.due \union {t + j.delay - 1} ELSE j.due
    IN [j EXCEPT !.due = d]
Impacts(js, ps, t) == {<<j.uid, j.pre, j.post, j.size>> : j \in {x \in js : t \in After(x, ps, t).due}}
Left(js, ps, t) == {LET a == After(j, ps, t) IN [a EXCEPT !.due = @ \ {t}] : j \in js}
RunStep(s, i) ==
    /\ s = Spikes(pops) /\ i = Impacts(projs, pops, step)
    /\ projs' = Left(projs, pops, step)
    /\ step' = step + 1 /\ UNCHANGED <<be, pops>>
RECURSIVE Many(_, _, _, _, _)
\* Several steps: the projections afterwards, with FALSE if what was seen is not what had to be seen.
Many(js, ps, t, seen, k) ==
    IF k > Len(seen) THEN <<TRUE, js>>
    ELSE IF seen[k].s = Spikes(ps) /\ seen[k].i = Impacts(js, ps, t) THEN Many(Left(js, ps, t), ps, t + 1, seen, k + 1)
    ELSE <<FALSE, js>>
RunMany(seen) ==
    LET r == Many(projs, pops, step, seen, 1) IN
      /\ r[1] /\ projs' = r[2] /\ step' = step + Len(seen) /\ UNCHANGED <<be, pops>>
=============================================================================
