------------------------------- MODULE Normal -------------------------------
(* Normalising a network: the given function is applied once to every value   *)
(* of the chosen kind.  Values have 10 fractional bits.                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
U == 1024
\* the rescaler from [lo, hi] to [ol, oh]
Scale(a, x) == a.ol * U + ((x - a.lo * U) * (a.oh - a.ol)) \div (a.hi - a.lo)
Values(v) == [pops |-> v.pops, projs |-> v.projs]
Mapped(a, v) == IF a.what = "neurons"
                THEN [v EXCEPT !.pops = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> Scale(a, @[i][j])]]]
                ELSE [v EXCEPT !.projs = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> [@[i][j] EXCEPT ![3] = Scale(a, @)]]]]
Flat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
All(a, v) == IF a.what = "neurons" THEN Flat(v.pops) ELSE [i \in DOMAIN Flat(v.projs) |-> Flat(v.projs)[i][3]]
Times(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Times(a, a[i]) = Times(b, a[i])
Normalised(a, r) ==
    /\ r.before.pops = [i \in DOMAIN a.pops |-> [j \in DOMAIN a.pops[i] |-> a.pops[i][j] * U]]
    /\ IF a.copy = 1 THEN r.after = r.before /\ r.copy = Mapped(a, r.before) ELSE r.after = Mapped(a, r.before)
    /\ SameBag(r.seen, All(a, r.before))
=============================================================================
