------------------------------- MODULE LogsMC -------------------------------
(* Every history of messages of a few senders: the aggregated lines tell     *)
(* every spike once, and each line those of its own period.                  *)
EXTENDS Logs
CONSTANTS PERIOD, MAXT, MAXS
G == [id |-> "g", kind |-> "agg", names |-> <<<<"p", "n1">>, <<"q", "n2">>>>, period |-> PERIOD, proj |-> ""]
VARIABLES t, mem, lines, hist
\* lines: <<step, counts>>; hist: the messages of each step
vars == <<t, mem, lines, hist>>
Init == t = 0 /\ mem = Zero(G) /\ lines = <<>> /\ hist = <<>>
Msg(x, n) == IF n = 0 THEN <<>> ELSE <<<<x, t, [i \in 1..n |-> i]>>>>
Next == /\ t < MAXT
        /\ \E a, b, c \in 0..MAXS :
             LET bus == Msg("p", a) \o Msg("q", b) \o Msg("other", c) IN
             /\ lines' = IF Due(G, t + 1) THEN Append(lines, <<t + 1, mem>>) ELSE lines
             /\ mem' = Told(G, mem, bus, t + 1)
             /\ hist' = Append(hist, bus)
        /\ t' = t + 1
Spec == Init /\ [][Next]_vars
\* steps whose spikes line i tells: all those before step lines[i][1] - 1 that no line told before
Sum(i, lo, hi) == FoldLeft(LAMBDA a, s : a + Spikes(G, hist[s])[i], 0, [j \in 1..hi - lo |-> lo + j])
Periods == \A i \in DOMAIN lines : /\ lines[i][1] = i * PERIOD
    /\ \A x \in DOMAIN G.names : lines[i][2][x] = Sum(x, IF i = 1 THEN 0 ELSE lines[i - 1][1] - 1, lines[i][1] - 1)
Conserved == \A x \in DOMAIN G.names : mem[x] + FoldLeft(LAMBDA a, y : a + y[2][x], 0, lines) = Sum(x, 0, t)
=============================================================================
