------------------------------ MODULE Builders ------------------------------
(* What connection and population builders make.  A connection is            *)
(* <<source, target, weight, delay, kind>>; its parameters are those of a tag *)
(* which the generator computed from the pair or from the position.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
PairTag(i, j) == 1 + i * 97 + j
PosTag(i) == 1 + i * 7
Conn(i, j, tag) == <<i, j, tag, 1 + (tag % 7), tag % 3>>
Plain(i, j) == <<i, j, 0, 1, 0>>
\* what the generator in use gives for a pair
Made(gen, i, j) == CASE gen = "pair" -> Conn(i, j, PairTag(i, j)) [] gen = "copy" -> Conn(i, j, 77) [] gen = "default" -> Plain(i, j)
MadeAt(gen, k, i, j) == IF gen = "default" THEN Plain(i, j) ELSE Conn(i, j, PosTag(k))

Times(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Times(a, a[i]) = Times(b, a[i])
Exactly(r, X) == Len(r) = Cardinality(X) /\ ToSet(r) = X

Pairs(n, m) == (0..n - 1) \X (0..m - 1)
Equal(n) == {<<i, i>> : i \in 0..n - 1}
Others(n) == {x \in Pairs(n, n) : x[1] # x[2]}
Accepts(k, x) == (x[1] * 2 + x[2]) % (k + 1) = 0
\* blocks of the larger side, of sizes that differ by at most one, each belonging to one neuron of the smaller side, in order
Blocks(X, n, m, big, small) ==      \* big, small: which component belongs to the larger side
    /\ \A i \in 0..n - 1 : Cardinality({x \in X : x[big] = i}) = 1
    /\ \A x, y \in X : x[big] < y[big] => x[small] <= y[small]
    /\ \A x \in X : x[big] \in 0..n - 1 /\ x[small] \in 0..m - 1
    /\ \A j \in 0..m - 1 : LET c == Cardinality({x \in X : x[small] = j}) IN c \in {n \div m, (n + m - 1) \div m}
Aligned(X, n, m) == IF n = 0 \/ m = 0 THEN X = {} ELSE IF n >= m THEN Blocks(X, n, m, 1, 2) ELSE Blocks(X, m, n, 2, 1)
PairsOf(r) == [i \in DOMAIN r |-> <<r[i][1], r[i][2]>>]

\* the connections still there after some were removed one after another
RECURSIVE Without(_, _)
Without(q, drop) == IF drop = <<>> THEN q ELSE Without(SelectSeq([i \in DOMAIN q |-> IF i = Head(drop) + 1 THEN <<>> ELSE q[i]], LAMBDA x : x # <<>>), Tail(drop))

Built(a, r) ==
    LET m == IF "m" \in DOMAIN a THEN a.m ELSE a.n
    IN CASE a.kind \in {"all", "connect"} -> Exactly(r, {Made(a.gen, x[1], x[2]) : x \in Pairs(a.n, a.m)})
         [] a.kind = "exclusive" -> Exactly(r, {Made(a.gen, x[1], x[2]) : x \in Others(a.n)})
         [] a.kind = "one" -> Exactly(r, {MadeAt(a.gen, x[1], x[1], x[2]) : x \in Equal(a.n)})
         [] a.kind = "aligned" -> /\ Len(r) = Cardinality(ToSet(r)) /\ Aligned(ToSet(PairsOf(r)), a.n, a.m)
                                  /\ \A i \in DOMAIN r : r[i] = Made(a.gen, r[i][1], r[i][2])
         [] a.kind = "index" -> Exactly(r, {Made("pair", x[1], x[2]) : x \in {y \in Pairs(a.n, a.m) : Accepts(a.k, y)}})
         [] a.kind = "prob" -> /\ Len(r) = Cardinality(ToSet(r))
                               /\ \A i \in DOMAIN r : <<r[i][1], r[i][2]>> \in Pairs(a.n, a.m) /\ r[i] = Made(a.gen, r[i][1], r[i][2])
                               /\ (a.p = 16 => Len(r) = a.n * a.m) /\ (a.p = 0 => r = <<>>)
         [] a.kind = "post" -> /\ \A i \in DOMAIN r : <<r[i][1], r[i][2]>> \in Pairs(a.n, a.m) /\ r[i] = Made(a.gen, r[i][1], r[i][2])
                               /\ \A i \in 0..a.n - 1 : Cardinality({j \in DOMAIN r : r[j][1] = i}) = IF a.m = 0 THEN 0 ELSE a.k
         [] a.kind = "pre" -> /\ \A i \in DOMAIN r : <<r[i][1], r[i][2]>> \in Pairs(a.n, a.m) /\ r[i] = Made(a.gen, r[i][1], r[i][2])
                              /\ \A i \in 0..a.m - 1 : Cardinality({j \in DOMAIN r : r[j][2] = i}) = IF a.n = 0 THEN 0 ELSE a.k
         [] a.kind \in {"list", "deque", "map"} -> SameBag(r, [i \in DOMAIN a.conns |-> Conn(a.conns[i][1], a.conns[i][2], a.conns[i][3])])
         [] a.kind = "clone" -> LET src == Without(a.conns, a.drop) IN SameBag(r, [i \in DOMAIN src |-> MadeAt(a.gen, i - 1, src[i][1], src[i][2])])
         [] a.kind = "connectgen" -> SameBag(r, [i \in 1..((a.iter + a.k) \div (a.k + 1)) |-> LET x == (i - 1) * (a.k + 1) IN Conn(x * 3, x + 2, PosTag(x))])
Ends(a) == IF a.kind = "clone" /\ a.gen # "default" THEN <<IF a.newpre = 1 THEN "w" ELSE "u", IF a.newpost = 1 THEN "z" ELSE "v">> ELSE <<"u", "v">>
\* the generator is asked once for every connection
Once(a, r, calls) == (a.kind \in {"all", "connect", "exclusive", "one", "aligned", "clone"} /\ a.gen = "pair") => calls = Len(r)

\* How often a random builder made each pair in a number of repetitions: within 8 standard deviations of what it should
Near(c, e, unit) == LET d == c * unit - e IN d * d <= 64 * e * unit
Count(r, x) == LET y == SelectSeq(r, LAMBDA z : z[1] = x[1] /\ z[2] = x[2]) IN IF y = <<>> THEN 0 ELSE y[1][3]
Spread(a, r) ==
    /\ \A i \in DOMAIN r : <<r[i][1], r[i][2]>> \in Pairs(a.n, a.m)
    /\ \A x \in Pairs(a.n, a.m) :
         CASE a.kind = "prob" -> IF a.p \in {0, 16} THEN Count(r, x) = a.times * (a.p \div 16) ELSE Near(Count(r, x), a.times * a.p, 16)
           [] a.kind = "post" -> Near(Count(r, x), a.times * a.k, a.m)
           [] a.kind = "pre" -> Near(Count(r, x), a.times * a.k, a.n)

Population(a, r, size) ==
    /\ a.kind \in {"list", "deque"} => r = a.tags /\ size = Len(a.tags)
    /\ a.kind = "default" => r = [i \in 1..a.n |-> 0] /\ size = a.n
    /\ a.kind = "clone" => r = [i \in 1..a.n |-> a.tag] /\ size = a.n
    /\ a.kind = "random" => size = a.n
=============================================================================
