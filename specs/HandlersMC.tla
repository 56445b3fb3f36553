----------------------------- MODULE HandlersMC -----------------------------
(* The way the handlers choose - swapping the drawn element behind the ones  *)
(* still to draw, ranking the groups and shuffling the tied ones - against   *)
(* what they promise, for every small message and every outcome of chance.   *)
EXTENDS Handlers, TLC, Json
CONSTANTS IDX, MAXLEN, MAXK, GEN
VARIABLES q, k, b, kind, rest, i, r, pc, order
vars == <<q, k, b, kind, rest, i, r, pc, order>>
Msgs == UNION {[1..n -> IDX] : n \in 0..MAXLEN}
Borders == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<1, 3>>}
Perms(n) == {p \in [1..n -> 1..n] : \A x, y \in 1..n : x # y => p[x] # p[y]}

Init == /\ q \in Msgs /\ k \in 0..MAXK /\ kind \in {"kwta", "group", "pergroup"}
        /\ b \in IF kind = "kwta" THEN {<<>>} ELSE Borders
        /\ rest = IF kind = "pergroup" THEN InGroup(q, b, 0) ELSE q
        /\ i = 0 /\ r = <<>> /\ order = 0
        /\ pc = IF kind = "group" THEN "rank" ELSE "draw"
SwapIn(s, x, y) == [s EXCEPT ![x] = s[y], ![y] = s[x]]
\* draw k of rest; groups one after another (order counts them)
Draw == /\ pc = "draw"
        /\ IF Len(rest) <= k
           THEN /\ r' = r \o rest /\ rest' = <<>> /\ i' = 0 /\ pc' = "group"
           ELSE IF i = k THEN r' = r /\ rest' = rest /\ i' = 0 /\ pc' = "group"
           ELSE \E x \in 1..(Len(rest) - i) :
                  /\ r' = Append(r, rest[x])
                  /\ rest' = SwapIn(rest, x, Len(rest) - i)
                  /\ i' = i + 1 /\ pc' = pc
        /\ UNCHANGED <<q, k, b, kind, order>>
NextGroup == /\ pc = "group"
             /\ IF kind = "pergroup" /\ order < Len(b)
                THEN order' = order + 1 /\ rest' = InGroup(q, b, order + 1) /\ pc' = "draw"
                ELSE pc' = "done" /\ UNCHANGED <<order, rest>>
             /\ UNCHANGED <<q, k, b, kind, i, r>>
\* any ranking of the groups by size: the first k of them win
Rank == /\ pc = "rank"
        /\ \E p \in Perms(Len(b) + 1) :
              LET size(n) == Len(InGroup(q, b, p[n] - 1)) IN
              /\ \A x, y \in 1..(Len(b) + 1) : x < y => size(x) >= size(y)
              /\ r' = FoldLeft(LAMBDA a, n : IF n <= k THEN a \o InGroup(q, b, p[n] - 1) ELSE a, <<>>, [n \in 1..(Len(b) + 1) |-> n])
        /\ pc' = "done"
        /\ UNCHANGED <<q, k, b, kind, rest, i, order>>
Next == Draw \/ NextGroup \/ Rank
Spec == Init /\ [][Next]_vars

Promise == pc = "done" => Allowed(kind, k, b, <<q>>, r)
NothingInvented == Inside(r, q)
OnlyCandidates == pc = "done" => ToSet(r) \subseteq Candidates(kind, k, b, q)
\* each input once, to be replayed on the real handlers
Emit == (GEN /\ pc # "done" /\ r = <<>> /\ i = 0 /\ order = 0) => PrintT("BEH " \o ToJson(<<kind, k, b, q>>))
=============================================================================
