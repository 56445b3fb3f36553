----------------------------- MODULE Validation -----------------------------
(* Network validation.  A network: names of populations, and projections      *)
(* <<name, presynaptic, postsynaptic>> whose ends may be "0" (none) or absent *)
(* from the network.                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Lonely(net) == {p \in ToSet(net.pops) : \A i \in DOMAIN net.projs : net.projs[i][2] # p /\ net.projs[i][3] # p}
Loose(net) == {net.projs[i][1] : i \in {j \in DOMAIN net.projs : net.projs[j][2] = "0" /\ net.projs[j][3] = "0"}}
Expected(net) == {<<"pop", p>> : p \in Lonely(net)} \cup {<<"proj", q>> : q \in Loose(net)}
\* every disconnected part is reported once, as an error of its kind that names it
Reported(net, r) ==
    /\ Len(r) = Cardinality(Expected(net))
    /\ \A x \in Expected(net) : Cardinality({i \in DOMAIN r : r[i][1] = "error" /\ r[i][2] = x[1] /\ x[2] \in ToSet(r[i][3])}) = 1

\* The executor: validators v = [of, issues] and perhaps a name.
Objects(net, v) == CASE v.of = "pop" -> ToSet(net.pops) [] v.of = "proj" -> {net.projs[i][1] : i \in DOMAIN net.projs} [] v.of = "net" -> {"net"}
Jobs(net, vs) == UNION {{<<i - 1, o>> : o \in Objects(net, vs[i])} : i \in DOMAIN vs}
Exactly(r, X) == Len(r) = Cardinality(X) /\ ToSet(r) = X
Result(v, o) == [i \in DOMAIN v.issues |-> <<v.issues[i][1], v.issues[i][2] \o "@" \o o, "ok">>]
Run(net, vs, run) ==
    /\ Exactly(run.calls, Jobs(net, vs))
    /\ Len(run.results) = Cardinality(Jobs(net, vs))
    /\ \A i \in DOMAIN run.results : run.results[i].who \in 0..Len(vs) - 1
    /\ \A i \in DOMAIN run.results :
         LET x == run.results[i]  v == vs[x.who + 1]
         IN /\ \E o \in Objects(net, v) : x.report = Result(v, o)
            /\ IF "name" \in DOMAIN v THEN x.name = v.name ELSE x.name # ""
    /\ \A j \in Jobs(net, vs) : Cardinality({i \in DOMAIN run.results : run.results[i].who = j[1] /\ run.results[i].report = Result(vs[j[1] + 1], j[2])}) =
                                IF vs[j[1] + 1].issues = <<>> THEN Cardinality(Objects(net, vs[j[1] + 1])) ELSE 1
=============================================================================
