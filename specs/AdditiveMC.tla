---------------------------- MODULE AdditiveMC ----------------------------
EXTENDS Additive, TLC
CONSTANT MAXT
Grid == [tp : {U \div 2, U, 2 * U}, tm : {U \div 2, U, 2 * U}]
VARIABLES q, y, t, old
vars == <<q, y, t, old>>
Init == q \in Grid /\ y = [w |-> 0, pre |-> <<>>, post |-> <<>>] /\ t = 0 /\ old = y
Next == /\ t < MAXT
        /\ \E a, b \in 0..2 : y' = Learn(q, y, t, a, b) /\ old' = Recall(q, y, t, a, b)
        /\ t' = t + 1 /\ q' = q
Spec == Init /\ [][Next]_vars
Period == q.tp + q.tm
\* histories are bounded by the period, ordered, and never both complete
Bounded == Len(y.pre) * U < Period + U /\ Len(y.post) * U < Period + U /\ ~Ripe(y, Period)
Ordered(h) == \A i, j \in DOMAIN h : i < j => h[i] <= h[j]
Sorted == Ordered(y.pre) /\ Ordered(y.post)
Changed == y.w # old.w \/ Ripe(old, Period)
\* the direction of the change
Direction ==
    Changed => /\ (\A i \in DOMAIN old.pre, j \in DOMAIN old.post : old.pre[i] <= old.post[j]) => y.w > old.w \/ Len(old.pre) = 0
               /\ (\A i \in DOMAIN old.pre, j \in DOMAIN old.post : old.pre[i] > old.post[j]) => y.w <= old.w
               /\ y.pre = <<>> /\ y.post = <<>>
\* exchanging the roles of the two sides (with no coincidences) exchanges strengthening and weakening
Mirror == Changed /\ (\A i \in DOMAIN old.pre, j \in DOMAIN old.post : old.pre[i] # old.post[j])
          => Pairs(old.pre, old.post, q.tp, q.tm) = -Pairs(old.post, old.pre, q.tm, q.tp)
\* closer pairs count more
ASSUME \A d \in 0..20, tau \in {U, 2 * U, 5 * U} : ExpNeg(d, tau) >= ExpNeg(d + 1, tau)
=============================================================================
