----------------------------- MODULE Additive -----------------------------
(* Additive spike-timing learning of one connection.                         *)
(* Histories pre, post: sequences of steps.  Parameters tp, tm (time         *)
(* constants) and weights have 16 fractional bits.                           *)
EXTENDS Fine
\* a spike is remembered k times, as long as the history is shorter than the period tp + tm
RECURSIVE Remember(_, _, _, _)
Remember(h, t, k, period) == IF k = 0 \/ Len(h) * U >= period THEN h ELSE Remember(Append(h, t), t, k - 1, period)

\* a presynaptic spike at step f and a postsynaptic one at step n: strengthened when the presynaptic one comes first
\* (or at once), weakened when it comes later, the less the further they are apart
Pair(f, n, tp, tm) == IF n >= f THEN ExpNeg(n - f, tp) ELSE -ExpNeg(f - n, tm)
RECURSIVE Row(_, _, _, _), Pairs(_, _, _, _)
Row(f, post, tp, tm) == IF post = <<>> THEN 0 ELSE Pair(f, Head(post), tp, tm) + Row(f, Tail(post), tp, tm)
Pairs(pre, post, tp, tm) == IF pre = <<>> THEN 0 ELSE Row(Head(pre), post, tp, tm) + Pairs(Tail(pre), post, tp, tm)

Ripe(y, period) == Len(y.pre) * U >= period /\ Len(y.post) * U >= period
\* One step: np presynaptic and nq postsynaptic spikes of learning sources at step t.
Recall(q, y, t, np, nq) == [y EXCEPT !.pre = Remember(@, t, np, q.tp + q.tm), !.post = Remember(@, t, nq, q.tp + q.tm)]
Apply(q, y) == IF Ripe(y, q.tp + q.tm) THEN [w |-> y.w + Pairs(y.pre, y.post, q.tp, q.tm), pre |-> <<>>, post |-> <<>>] ELSE y
Learn(q, y, t, np, nq) == Apply(q, Recall(q, y, t, np, nq))
=============================================================================
