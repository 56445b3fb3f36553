---------------------------- MODULE LearningMC ----------------------------
(* One neuron with two plastic connections under every combination of spikes, *)
(* forcing, rewards, punishments and locking, for parameters of a small grid. *)
EXTENDS Learning, TLC, FiniteSets
CONSTANTS MAXT, WIDE
Grid == [coef : {U \div 2}, time : {1}, thr : IF WIDE THEN {0, U, Huge} ELSE {U}, drain : IF WIDE THEN {0, 1, 2} ELSE {1},
         dh : {U}, scp : {U}, imax : IF WIDE THEN {1, 2} ELSE {1}, isichg : IF WIDE THEN {0, U \div 2} ELSE {U \div 2}]
Qs == <<[wmin |-> 0, wmax |-> 2 * U, du |-> U \div 8, per |-> 1, dl |-> 1], [wmin |-> -U, wmax |-> U, du |-> 0, per |-> 2, dl |-> 2]>>
VARIABLES p, n, ys, t, locked, lost, ev
vars == <<p, n, ys, t, locked, lost, ev>>
Init ==
    /\ p \in Grid
    /\ n \in [F : {U, -U}, stab : {0, U}, isi : {OUTSIDE}, ls : {0}, lss : {0}, first : {0}, forced : {FALSE}, dop : {0}, add : {0}]
    /\ ys = <<[w |-> Weight(Qs[1], U), r |-> U, last |-> 0, hebb |-> FALSE, con |-> FALSE],
              [w |-> Weight(Qs[2], -U), r |-> -U, last |-> 0, hebb |-> FALSE, con |-> FALSE]>>
    /\ t = 5 /\ locked \in BOOLEAN /\ lost = <<0, 0, 0, 0>> /\ ev = "init"
\* one step: the neuron is forced or not, gets dopamine or not, fires or not; then some presynaptic neurons fire
Step ==
    /\ t < 5 + MAXT
    /\ \E forced \in BOOLEAN, dop \in {-U, 0, U}, fired \in BOOLEAN, cross \in SUBSET {1, 2} :
          LET n0 == [n EXCEPT !.forced = forced, !.dop = dop]
              had == [i \in 1..2 |-> Arrived(Qs[i], ys[i], t)]
          IN \E isi \in (IF fired THEN IsiAfter(n0) ELSE {n.isi}) : \E first \in (IF fired THEN FirstAfter(n0, isi, t) ELSE {n.first}) :
             LET r == IF locked THEN Train(p, <<>>, n0, <<>>, t, fired, isi, first, <<>>)
                      ELSE Train(p, Qs, n0, ys, t, fired, isi, first, had)
                 y == IF locked THEN ys ELSE r.ys
             IN /\ n' = r.n
                /\ ys' = [i \in 1..2 |-> IF i \in cross THEN [y[i] EXCEPT !.last = t] ELSE y[i]]
                /\ LET mid == IF locked THEN r ELSE Train([p EXCEPT !.thr = Huge], Qs, n0, ys, t, fired, isi, first, had)
                       before == Total(n0, ys)  between == IF locked THEN before ELSE Total(mid.n, mid.ys)  after == Total(r.n, y)
                   IN lost' = <<before - between, between - after, IF Shares(p, mid.n, t) /\ ~locked THEN MulDiv(mid.n.F, p.drain, 2 + p.drain) ELSE 0, IF Shares(p, mid.n, t) THEN 1 ELSE 0>>
                /\ ev' = IF fired THEN "fired" ELSE IF dop # 0 THEN "dopamine" ELSE "quiet"
    /\ t' = t + 1 /\ UNCHANGED <<p, locked>>
Toggle == /\ ev \notin {"lock"} /\ locked' = ~locked /\ ev' = "lock" /\ UNCHANGED <<p, n, ys, t, lost>>
Next == Step \/ Toggle
Spec == Init /\ [][Next]_vars

\* a weight is the documented function of its resource and stays between its bounds
WeightFn == \A i \in 1..2 : ys[i].w = Weight(Qs[i], ys[i].r)
Bounds   == \A i \in 1..2 : Qs[i].wmin <= ys[i].w /\ ys[i].w <= Qs[i].wmax
\* resource goes nowhere but to the drain, which takes its share of the free resource handed out (up to rounding)
Conserved == lost[1] = 0 /\ Abs(lost[2] - lost[3]) <= 2
\* nothing is learned while locked
LockedStill == [][(locked /\ locked') => \A i \in 1..2 : ys'[i].w = ys[i].w /\ ys'[i].r = ys[i].r]_vars
\* a spike of the neuron never weakens a contributing connection unless resource is handed out (dh >= 0), except by d_u
HebbOnce == [][(ev' = "fired" /\ n'.isi = CONTINUED /\ n'.dop = 0 /\ lost'[4] = 0) =>
                 \A i \in 1..2 : ys[i].hebb => ys'[i].r = ys[i].r - (IF locked THEN 0 ELSE Qs[i].du)]_vars
\* dopamine changes only connections that contributed
OnlyContributors == [][(ev' = "dopamine" /\ lost'[4] = 0) => \A i \in 1..2 : ~ys[i].con => ys'[i].r = ys[i].r]_vars
Still == [][(ev' = "quiet" /\ lost'[4] = 0) => \A i \in 1..2 : ys'[i].r = ys[i].r]_vars
\* the weight grows with the resource
ASSUME \A i \in 1..2 : \A a \in {-3, -1, 0, 1, 2, 5, 9} : \A b \in {-2, 0, 1, 3, 10} :
          a <= b => Weight(Qs[i], a * U) <= Weight(Qs[i], b * U)
ASSUME Exp2Neg(0) = One /\ Exp2Neg(U) = One \div 2 /\ Abs(Exp2Neg(U \div 2) - 47453133) < 4 /\ Abs(ExpNeg(1, U) - 24109) < 3
ASSUME Abs(ExpNeg(3, 2 * U) - 14623) < 3 /\ Abs(ExpNeg(7, 5 * U) - 16161) < 3
=============================================================================
