------------------------------- MODULE HoldMC -------------------------------
EXTENDS Hold, Json
CONSTANTS MaxOps, GEN
VARIABLES hist, n, sent
mv == <<be, pops, projs, step, hist, n, sent>>
H(x) == hist' = Append(hist, x)
P(u, k) == [uid |-> u, kind |-> k, size |-> 2]
J(u, k, a, b, d) == [uid |-> u, kind |-> k, pre |-> a, post |-> b, size |-> 1, delay |-> d, locked |-> FALSE, due |-> {}]
PopChoices == { {}, {P("P1", "BLIFATNeuron")}, {P("P1", "LIFNeuron"), P("P2", "SynapticResourceSTDPBLIFATNeuron")},
                {P("P2", "AltAILIF")} }
ProjChoices == { {}, {J("J1", "DeltaSynapse", "P1", "P2", 1)},
                 {J("J1", "DeltaSynapse", "P1", "P1", 2), J("J2", "SynapticResourceSTDPDeltaSynapse", "P2", "P1", 1)},
                 {J("J2", "AdditiveSTDPDeltaSynapse", "P1", "P2", 1)} }
Short(k) == CASE k = "BLIFATNeuron" -> "B" [] k = "SynapticResourceSTDPBLIFATNeuron" -> "SB" [] k = "AltAILIF" -> "A"
              [] k = "SynapticResourceSTDPAltAILIFNeuron" -> "SA" [] k = "LIFNeuron" -> "L"
              [] k = "DeltaSynapse" -> "D" [] k = "AdditiveSTDPDeltaSynapse" -> "AD" [] OTHER -> "SD"
MCInit == (\E b \in {"st", "mt"} : HInit(b)) /\ hist = <<be>> /\ n = 0 /\ sent = <<>>
Op ==
    \/ \E c \in PopChoices : LoadPops(c, IF \A p \in c : NeuronOk(be, p.kind) THEN "ok" ELSE "fail")
          /\ H(<<"pops", {<<p.uid, Short(p.kind), p.size>> : p \in c}>>) /\ UNCHANGED sent
    \/ \E c \in ProjChoices : LoadProjs(c, IF \A p \in c : SynapseOk(be, p.kind) THEN "ok" ELSE "fail")
          /\ H(<<"projs", {<<p.uid, Short(p.kind), p.pre, p.post, p.size, p.delay, 0>> : p \in c}>>) /\ UNCHANGED sent
    \/ \E us \in {{"P1"}, {"P2"}, {"P1", "P9"}} : Known(pops) /\ RemovePops(us) /\ H(<<"rmpops", us>>) /\ UNCHANGED sent
    \/ \E us \in {{"J1"}, {"J2"}, {"J1", "J2"}} : Known(projs) /\ RemoveProjs(us) /\ H(<<"rmprojs", us>>) /\ UNCHANGED sent
    \/ \E on \in BOOLEAN : Known(projs) /\ Learning(on) /\ H(<<"learn", on>>) /\ UNCHANGED sent
    \/ Known(pops) /\ Known(projs) /\ RunStep(Spikes(pops), Impacts(projs, pops, step))
          /\ H(<<"run">>) /\ sent' = <<Spikes(pops), Impacts(projs, pops, step)>>
Next == n < MaxOps /\ n' = n + 1 /\ Op
Spec == MCInit /\ [][Next]_mv
V == <<be, pops, projs, step, n, sent>>
\* Only what is supported is ever held, and each identifier once.
Held == /\ Known(pops) => \A p \in pops : NeuronOk(be, p.kind)
        /\ Known(projs) => \A p \in projs : SynapseOk(be, p.kind)
        /\ Cardinality(pops) = Cardinality(Uids(pops)) /\ Cardinality(projs) = Cardinality(Uids(projs))
\* What is sent comes from what is held.
FromHeld == [][sent' # sent => /\ {x[1] : x \in sent'[1]} = Uids(pops)
                               /\ {x[1] : x \in sent'[2]} \subseteq Uids(projs)]_mv
\* Nothing stays due longer than its delay.
DueSoon == Known(projs) => \A j \in projs : j.due \subseteq step .. (step + j.delay - 2)
\* Removing and loading leave the other category and the clock alone.
Apart == [][LET o == hist'[Len(hist')][1] IN
             /\ o \in {"pops", "rmpops"} => projs' = projs
             /\ o \in {"projs", "rmprojs", "run", "learn"} => pops' = pops
             /\ o # "run" => step' = step]_mv
\* A projection that is removed, or whose population is, falls silent after its delay.
Silent == [][(sent' # sent /\ Known(projs)) => \A x \in sent'[2] : \E j \in projs : j.uid = x[1] /\ (Fed(j, pops) \/ step \in j.due)]_mv
Emit == (GEN /\ n = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
