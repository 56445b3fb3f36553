-------------------------------- MODULE Logs --------------------------------
(* Loggers that watch a running model. A logger is                           *)
(*   [id, kind, names, period, proj]   names: sequence of <<sender, name>>,  *)
(* in ascending order of different names; its memory is the numbers of       *)
(* spikes by name that no line has told yet.                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, BagsExt, TLC

Join(strings) == FoldLeft(LAMBDA a, x : a \o x, "", strings)
Senders(g) == {g.names[i][1] : i \in DOMAIN g.names}
Zero(g) == [i \in DOMAIN g.names |-> 0]
Header(g) == IF g.kind = "agg" THEN <<"Index" \o Join([i \in DOMAIN g.names |-> ", " \o g.names[i][2]])>> ELSE <<>>
Heard(g, bus) == SelectSeq(bus, LAMBDA x : x[1] \in Senders(g))
Spikes(g, bus) == [i \in DOMAIN g.names |-> FoldLeft(LAMBDA a, x : IF x[1] = g.names[i][1] THEN a + Len(x[3]) ELSE a, 0, bus)]
Due(g, step) == step % g.period = 0

\* memory after the step before `step`, where the messages bus were sent
Told(g, mem, bus, step) == LET n == Spikes(g, bus) IN [i \in DOMAIN mem |-> (IF Due(g, step) THEN 0 ELSE mem[i]) + n[i]]
AggLine(g, mem, step) == ToString(step) \o Join([i \in DOMAIN mem |-> ", " \o ToString(mem[i])])
NameOf(g, who) == g.names[CHOOSE i \in DOMAIN g.names : g.names[i][1] = who][2]
Entry(g, x) == <<"Step: " \o ToString(x[2]), "Sender: " \o NameOf(g, x[1]), Join([i \in DOMAIN x[3] |-> ToString(x[3][i]) \o " "])>>

Bag(seq) == LET s == ToSet(seq) IN [x \in s |-> Cardinality({i \in DOMAIN seq : seq[i] = x})]
Triples(lines) == [i \in 1..Len(lines) \div 3 |-> SubSeq(lines, 3 * i - 2, 3 * i)]

\* weights: rows of <<receiver, sender, value, step>>, one line of values per receiver, receivers and senders in ascending order
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Receivers(rows) == SetToSortSeq({rows[i][1] : i \in DOMAIN rows}, LAMBDA a, b : a < b)
Ordered(rows) == SortSeq(rows, Less)
WeightsOK(step, rows, toks) ==
    LET rs == Receivers(rows)
        n == Len(rs)
        part(i) == SelectSeq(Ordered(rows), LAMBDA x : x[1] = rs[i])
    IN /\ Len(toks) = 2 + 2 * n
       /\ toks[1] = <<"Step:", ToString(step)>> /\ toks[2] = <<>>
       /\ \A i \in 1..n :
             /\ toks[2 * i + 1] = <<"Neuron", ToString(rs[i])>>
             /\ Len(toks[2 * i + 2]) = Len(part(i))
             /\ Bag([y \in DOMAIN part(i) |-> <<part(i)[y][2], part(i)[y][3] \o "|" \o part(i)[y][4]>>])
                  = Bag([y \in DOMAIN part(i) |-> <<part(i)[y][2], toks[2 * i + 2][y]>>])

\* what a logger may write after the step before `step`; toks: the lines, split at spaces
Writes(g, mem, bus, step, lines, toks, rows) ==
    CASE g.kind = "spikes" -> Len(lines) % 3 = 0 /\ Bag(Triples(lines)) = Bag([i \in DOMAIN Heard(g, bus) |-> Entry(g, Heard(g, bus)[i])])
      [] g.kind = "agg" -> lines = IF Due(g, step) THEN <<AggLine(g, mem, step)>> ELSE <<>>
      [] g.kind = "weights" -> IF Due(g, step) THEN WeightsOK(step, rows, toks) ELSE lines = <<>>
      [] g.kind = "status" -> lines = IF Due(g, step) /\ Len(Heard(g, bus)) > 0 THEN <<ToString(Len(Heard(g, bus)))>> ELSE <<>>
=============================================================================
