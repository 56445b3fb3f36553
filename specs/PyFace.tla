------------------------------- MODULE PyFace -------------------------------
(* What a Python program sees of parameters, populations, projections,       *)
(* networks and models: values held by names.  An item is the parameters of  *)
(* one neuron, [t, ch]: made from the number t, with the fields in ch set to *)
(* other values since; a connection adds its two ends.                       *)
(*   obj : name -> [k, i]                  parameter objects                 *)
(*   pop : name -> [uid, k, c]             c: sequence of items              *)
(*   prj : name -> [uid, k, pre, post, c]  c: sequence of <<s, d, item>>     *)
(*   net : name -> [pops, projs, ins, outs, model]                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES obj, pop, prj, net
pvars == <<obj, pop, prj, net>>
None == [x \in {} |-> x]
PyInit == obj = None /\ pop = None /\ prj = None /\ net = None
Without(f, x) == Restrict(f, DOMAIN f \ {x})
With(f, x, v) == (x :> v) @@ f
Item(t) == [t |-> t, ch |-> {}]
\* made: the value is the one the field was made with
Put(i, f, v, made) == [i EXCEPT !.ch = {x \in @ : x[1] # f} \cup (IF made THEN {} ELSE {<<f, v>>})]

\* --- attributes: those of a kind, and the field each one shows
BLIFAT == {"n_time_steps_since_last_firing", "activation_threshold", "dynamic_threshold", "threshold_decay", "threshold_increment",
           "postsynaptic_trace", "postsynaptic_trace_decay", "postsynaptic_trace_increment", "inhibitory_conductance",
           "inhibitory_conductance_decay", "potential", "pre_impact_potential", "potential_decay", "bursting_phase", "bursting_period",
           "reflexive_weight", "reversal_inhibitory_potential", "absolute_refractory_period", "potential_reset_value", "min_potential",
           "total_blocking_period", "dopamine_value"}
Written == {"dopamine_plasticity_time", "free_synaptic_resource", "synaptic_resource_threshold", "resource_drain_coefficient",
            "stability", "stability_change_parameter", "stability_change_at_isi", "isi_max", "d_h", "isi_status", "last_step",
            "first_isi_spike", "is_being_forced"}
Altai == {"is_diff", "is_reset", "leak_rev", "saturate", "do_not_save", "potential", "activation_threshold",
          "negative_activation_threshold", "potential_leak", "potential_reset_value"}
Delta == {"weight", "delay", "output_type"}
Rule == {"rule.synaptic_resource", "rule.min_weight", "rule.max_weight", "rule.d_u", "rule.dopamine_plasticity_period",
         "rule.last_spike_step", "rule.had_hebbian_update", "rule.had_contributed"}
Attrs(k) == CASE k = "blifat" -> BLIFAT
              [] k = "srblifat" -> BLIFAT \cup Written
              [] k = "altai" -> Altai
              [] k = "delta" -> Delta
              [] OTHER -> Delta \cup Rule
Renamed == ("rule.synaptic_resource" :> "synaptic_resource") @@ ("rule.min_weight" :> "w_min") @@ ("rule.max_weight" :> "w_max") @@
           ("rule.d_u" :> "d_u") @@ ("rule.dopamine_plasticity_period" :> "dopamine_plasticity_period") @@
           ("rule.last_spike_step" :> "last_spike_step") @@ ("rule.had_hebbian_update" :> "had_hebbian_update") @@
           ("rule.had_contributed" :> "has_contributed")
FieldOf(a) == IF a \in DOMAIN Renamed THEN Renamed[a] ELSE a
\* attributes a program may set; setting any other one is refused or does just that
MustWrite(k, f) == k = "srblifat" /\ f \in Written

\* --- generators: a sequence of what each call does: [g, v, o], g one of
\*     tag (parameters made from v), obj (a copy of the object o), none, raise, type (something that is no parameters)
Bad(list) == {i \in DOMAIN list : list[i].g \in {"raise", "type"}}
FirstBad(list) == CHOOSE i \in Bad(list) : \A j \in Bad(list) : i <= j
Upto(list) == IF Bad(list) = {} THEN Len(list) ELSE FirstBad(list)
Asked(list) == [i \in 1 .. Upto(list) |-> i - 1]              \* the indexes the generator is called with
Outcome(list) == IF Bad(list) = {} THEN "ok" ELSE IF list[FirstBad(list)].g = "raise" THEN "raise" ELSE "type"
OfCall(x) == CASE x.g = "tag" -> <<Item(x.v)>>
               [] x.g = "obj" -> <<obj[x.o].i>>
               [] OTHER -> <<>>
OfSyn(x) == LET y == OfCall(x) IN IF y = <<>> THEN <<>> ELSE <<<<x.s, x.d, y[1]>>>>
Given(list, Of(_)) == FlattenSeq([i \in DOMAIN list |-> Of(list[i])])

\* --- parameter objects
Mk(o, k, v) == obj' = With(obj, o, [k |-> k, i |-> Item(v)]) /\ UNCHANGED <<pop, prj, net>>
SetOk(o, f, v, made) == obj' = [obj EXCEPT ![o].i = Put(@, f, v, made)] /\ UNCHANGED <<pop, prj, net>>
SetFails(o, f) == ~MustWrite(obj[o].k, f) /\ UNCHANGED pvars

\* --- populations
MkPop(p, u, k, list) == Outcome(list) = "ok" /\ pop' = With(pop, p, [uid |-> u, k |-> k, c |-> Given(list, OfCall)]) /\ UNCHANGED <<obj, prj, net>>
MkFails(list) == Outcome(list) # "ok" /\ UNCHANGED pvars
SetC(p, c) == pop' = [pop EXCEPT ![p].c = c] /\ UNCHANGED <<obj, prj, net>>
AddPop(p, list) == Outcome(list) = "ok" /\ SetC(p, pop[p].c \o Given(list, OfCall))
\* what a failing generator gave before may or may not have been added
AddFails(p, list) == Outcome(list) # "ok" /\ \E n \in 0 .. Upto(list) - 1 : SetC(p, pop[p].c \o Given(SubSeq(list, 1, n), OfCall))
Rest(c, S) == LET keep == {i \in DOMAIN c : (i - 1) \notin S}
              IN [n \in 1 .. Cardinality(keep) |-> c[CHOOSE i \in keep : Cardinality({j \in keep : j < i}) = n - 1]]
Rm(p, S) == SetC(p, Rest(pop[p].c, S))
InRange(c, i) == 0 <= i /\ i < Len(c)
SetAt(p, i, f, v, made) == SetC(p, [pop[p].c EXCEPT ![i + 1] = Put(@, f, v, made)])

\* --- projections
MkPrj(j, u, k, pre, post, list) ==
    Outcome(list) = "ok" /\ prj' = With(prj, j, [uid |-> u, k |-> k, pre |-> pre, post |-> post, c |-> Given(list, OfSyn)])
    /\ UNCHANGED <<obj, pop, net>>
SetJ(j, c) == prj' = [prj EXCEPT ![j].c = c] /\ UNCHANGED <<obj, pop, net>>
AddSyn(j, list) == Outcome(list) = "ok" /\ SetJ(j, prj[j].c \o Given(list, OfSyn))
AddSynFails(j, list) == Outcome(list) # "ok" /\ \E n \in 0 .. Upto(list) - 1 : SetJ(j, prj[j].c \o Given(SubSeq(list, 1, n), OfSyn))

\* --- networks and models; a model takes over the contents of the network object it is given
SetN(n, r) == net' = With(net, n, r) /\ UNCHANGED <<obj, pop, prj>>
MkNet(n) == SetN(n, [pops |-> None, projs |-> None, ins |-> {}, outs |-> {}, model |-> FALSE])
NAddPop(n, p) == pop[p].uid \notin DOMAIN net[n].pops /\ SetN(n, [net[n] EXCEPT !.pops = With(@, pop[p].uid, pop[p])])
NAddPopFails(n, p) == pop[p].uid \in DOMAIN net[n].pops /\ UNCHANGED pvars
NAddPrj(n, j) == prj[j].uid \notin DOMAIN net[n].projs /\ SetN(n, [net[n] EXCEPT !.projs = With(@, prj[j].uid, prj[j])])
NAddPrjFails(n, j) == prj[j].uid \in DOMAIN net[n].projs /\ UNCHANGED pvars
NRm(n, what, u) == u \in DOMAIN net[n][what] /\ SetN(n, [net[n] EXCEPT ![what] = Without(@, u)])
NFails(n, what, u) == u \notin DOMAIN net[n][what] /\ UNCHANGED pvars
NGetPop(n, u, p) == u \in DOMAIN net[n].pops /\ pop' = With(pop, p, net[n].pops[u]) /\ UNCHANGED <<obj, prj, net>>
NGetPrj(n, u, j) == u \in DOMAIN net[n].projs /\ prj' = With(prj, j, net[n].projs[u]) /\ UNCHANGED <<obj, pop, net>>
MkModel(m, n) == net' = With(Without(net, n), m, [net[n] EXCEPT !.model = TRUE]) /\ UNCHANGED <<obj, pop, prj>>
SetNet(m, n) == net' = Without([net EXCEPT ![m].pops = net[n].pops, ![m].projs = net[n].projs], n) /\ UNCHANGED <<obj, pop, prj>>
\* the network of a model, kept when the program has let go of the model
Detach(m, n) == net' = With(Without(net, m), n, [net[m] EXCEPT !.model = FALSE, !.ins = {}, !.outs = {}]) /\ UNCHANGED <<obj, pop, prj>>
NextReg(S, ch, u) == <<ch, u, Cardinality({t \in S : t[1] = ch /\ t[2] = u}) + 1>>
InCh(m, ch, u) == u \in DOMAIN net[m].projs /\ SetN(m, [net[m] EXCEPT !.ins = @ \cup {NextReg(@, ch, u)}])
OutCh(m, ch, u) == u \in DOMAIN net[m].pops /\ SetN(m, [net[m] EXCEPT !.outs = @ \cup {NextReg(@, ch, u)}])
Drop(x) == /\ obj' = Without(obj, x) /\ pop' = Without(pop, x) /\ prj' = Without(prj, x) /\ net' = Without(net, x)

Sane == \A n \in DOMAIN net : (\A u \in DOMAIN net[n].pops : net[n].pops[u].uid = u) /\ (\A u \in DOMAIN net[n].projs : net[n].projs[u].uid = u)
=============================================================================
