----------------------------- MODULE BuildersMC -----------------------------
(* The index arithmetic of the builders makes exactly their patterns, for     *)
(* every small size; GEN emits every small request for the real builders.    *)
EXTENDS Builders, TLC, Json
CONSTANTS MAX, GEN
VARIABLES a
Kinds == {"all", "aligned", "exclusive", "one", "index", "prob", "post", "pre", "connect"}
Init == a \in [kind : Kinds, n : 0..MAX, m : 0..MAX, k : 0..3, p : {0, 8, 16}, gen : {"pair"}]
Spec == Init /\ [][UNCHANGED a]_a
Max2(x, y) == IF x > y THEN x ELSE y
Iterations == CASE a.kind \in {"all", "connect", "index"} -> a.n * a.m
                [] a.kind = "exclusive" -> a.n * (a.n - 1)
                [] a.kind = "one" -> a.n
                [] a.kind = "aligned" -> IF a.n = 0 \/ a.m = 0 THEN 0 ELSE Max2(a.n, a.m)
                [] OTHER -> 0
At(i) == CASE a.kind \in {"all", "connect", "index"} -> <<i % a.n, i \div a.n>>
           [] a.kind = "exclusive" -> LET f == i \div (a.n - 1)  t == i % (a.n - 1) IN <<f, IF t >= f THEN t + 1 ELSE t>>
           [] a.kind = "one" -> <<i, i>>
           [] a.kind = "aligned" -> IF a.n >= a.m THEN <<i, (i * a.m) \div a.n>> ELSE <<(i * a.n) \div a.m, i>>
Arithmetic == LET q == [i \in 1..Iterations |-> At(i - 1)]
                  r == SelectSeq(q, LAMBDA x : a.kind = "index" => Accepts(a.k, x))
              IN a.kind \in {"prob", "post", "pre"} \/ Built(a, [i \in DOMAIN r |-> IF a.kind = "one" THEN MadeAt("pair", r[i][1], r[i][1], r[i][2]) ELSE Made("pair", r[i][1], r[i][2])])
\* every pattern keeps inside the populations
Inside == a.kind \notin {"prob", "post", "pre", "one", "exclusive", "index"} => \A i \in 1..Iterations : At(i - 1) \in Pairs(a.n, a.m)
Needs(f) == CASE a.kind \in {"one", "exclusive"} -> f = "n" [] a.kind \in {"post", "pre", "index"} -> f \in {"n", "m", "k"}
              [] a.kind = "prob" -> f \in {"n", "m", "p"} [] OTHER -> f \in {"n", "m"}
Canonical == (Needs("m") \/ a.m = 0) /\ (Needs("k") \/ a.k = 0) /\ (Needs("p") \/ a.p = 0)
Emit == (GEN /\ Canonical) => PrintT("BEH " \o ToJson(a))
=============================================================================
