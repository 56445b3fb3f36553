------------------------------ MODULE ConvertMC ------------------------------
(* Every small stream, read step by step with portions of any size: nothing  *)
(* is skipped or read twice, and after the end there is nothing.             *)
EXTENDS Convert, TLC, Json
CONSTANTS MAXLEN, MAXN, MAXSTEPS, GEN
VARIABLES c, kind, pos, n, got, steps
vars == <<c, kind, pos, n, got, steps>>
Tokens == UNION {[1..k -> {-4, 0, 4}] : k \in 0..MAXLEN}
Lines == UNION {[1..k -> {<<>>, <<0>>, <<2, 1>>}] : k \in 0..MAXLEN}
Init == /\ kind \in {"seq", "idx"} /\ n \in 0..MAXN
        /\ c \in IF kind = "seq" THEN [data : Tokens, bool : {TRUE, FALSE}, thr : {-4, 0, 4}] ELSE [data : Lines]
        /\ pos = 0 /\ got = <<>> /\ steps = <<>>
\* got: pairs of the position in the stream of everything emitted (with the index for lines)
Read == /\ got' = got \o (IF kind = "seq" THEN LET r == Reads(c, pos, n) IN [i \in DOMAIN r |-> pos + r[i]]
                          ELSE LET r == Line(c, pos) IN [i \in DOMAIN r |-> <<pos, r[i]>>])
        /\ pos' = IF kind = "seq" THEN pos + n ELSE pos + 1
        /\ steps' = Append(steps, n) /\ UNCHANGED <<c, kind, n>>
Size == \E k \in 0..MAXN : kind = "seq" /\ k # n /\ n' = k /\ UNCHANGED <<c, kind, pos, got, steps>>
Next == Len(steps) < MAXSTEPS /\ (Read \/ Size)
Spec == Init /\ [][Next]_vars
Lesser(a, b) == IF a < b THEN a ELSE b
\* exactly the accepted tokens among those that were passed, in order
Whole == IF kind = "seq"
         THEN got = SelectSeq([i \in 1..Lesser(pos, Len(c.data)) |-> i - 1], LAMBDA i : Accept(c, c.data[i + 1]))
         ELSE got = FoldLeft(LAMBDA a, x : a \o x, <<>>, [l \in 1..Lesser(pos, Len(c.data)) |-> [j \in DOMAIN c.data[l] |-> <<l - 1, c.data[l][j]>>]])
Emit == (GEN /\ Len(steps) = MAXSTEPS) => PrintT("BEH " \o ToJson(<<kind, c>> \o steps))
=============================================================================
