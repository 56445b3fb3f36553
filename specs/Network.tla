------------------------------- MODULE Network -------------------------------
(* A network: keyed collections of populations and projections; a model adds  *)
(* input and output channels.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES pops,    \* uid -> [u, k, c]
          projs,   \* uid -> [u, k, pre, post, c]
          ins, outs   \* sets of <<channel, target, n>>: the n-th registration of that pair
nvars == <<pops, projs, ins, outs>>
EmptyF == [x \in {} |-> x]
NInit == pops = EmptyF /\ projs = EmptyF /\ ins = {} /\ outs = {}

\* Each call either succeeds (result ok) or fails and changes nothing.
AddPop(r) == r.u \notin DOMAIN pops /\ pops' = (r.u :> r) @@ pops /\ UNCHANGED <<projs, ins, outs>>
AddPopFails(u) == u \in DOMAIN pops /\ UNCHANGED nvars
AddProj(r) == r.u \notin DOMAIN projs /\ projs' = (r.u :> r) @@ projs /\ UNCHANGED <<pops, ins, outs>>
AddProjFails(u) == u \in DOMAIN projs /\ UNCHANGED nvars
Connect(r) == r.pre \in DOMAIN pops /\ r.post \in DOMAIN pops /\ AddProj(r)
ConnectFails(pre, post) == ~(pre \in DOMAIN pops /\ post \in DOMAIN pops) /\ UNCHANGED nvars
RmPop(u) == u \in DOMAIN pops /\ pops' = Restrict(pops, DOMAIN pops \ {u}) /\ UNCHANGED <<projs, ins, outs>>
RmPopFails(u) == u \notin DOMAIN pops /\ UNCHANGED nvars
RmProj(u) == u \in DOMAIN projs /\ projs' = Restrict(projs, DOMAIN projs \ {u}) /\ UNCHANGED <<pops, ins, outs>>
RmProjFails(u) == u \notin DOMAIN projs /\ UNCHANGED nvars
EditPop(u, c) == u \in DOMAIN pops /\ pops' = [pops EXCEPT ![u].c = c] /\ UNCHANGED <<projs, ins, outs>>
EditProj(u, c) == u \in DOMAIN projs /\ projs' = [projs EXCEPT ![u].c = c] /\ UNCHANGED <<pops, ins, outs>>
\* typed getters succeed only for the kind stored
CanGet(f, u, k, how) == u \in DOMAIN f /\ (how = "variant" \/ f[u].k = k)
NextReg(S, ch, u) == <<ch, u, Cardinality({t \in S : t[1] = ch /\ t[2] = u}) + 1>>
InCh(ch, u) == u \in DOMAIN projs /\ ins' = ins \union {NextReg(ins, ch, u)} /\ UNCHANGED <<pops, projs, outs>>
InChFails(u) == u \notin DOMAIN projs /\ UNCHANGED nvars
OutCh(ch, u) == u \in DOMAIN pops /\ outs' = outs \union {NextReg(outs, ch, u)} /\ UNCHANGED <<pops, projs, ins>>
OutChFails(u) == u \notin DOMAIN pops /\ UNCHANGED nvars

KeyedByUid == (\A u \in DOMAIN pops : pops[u].u = u) /\ (\A u \in DOMAIN projs : projs[u].u = u)
=============================================================================
