------------------------------ MODULE Handlers ------------------------------
(* What the winner-take-all and union handlers may return for the messages   *)
(* of a step.  msgs: sequence of index sequences; only the first message is  *)
(* looked at by the winner-take-all handlers.                                *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Times(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Inside(a, b) == \A x \in ToSet(a) : Times(a, x) <= Times(b, x)
SameBag(a, b) == Len(a) = Len(b) /\ Inside(a, b)
Least(a, b) == IF a < b THEN a ELSE b

\* the group of an index: how many borders are not above it
Group(b, x) == Cardinality({i \in DOMAIN b : b[i] <= x})
Groups(b) == 0..Len(b)
InGroup(q, b, g) == SelectSeq(q, LAMBDA x : Group(b, x) = g)

KWta(k, q, r) == Inside(r, q) /\ Len(r) = Least(k, Len(q))
GroupWta(k, b, q, r) ==
    \E W \in SUBSET Groups(b) :
        /\ Cardinality(W) = Least(k, Cardinality(Groups(b)))
        /\ \A g \in W, h \in Groups(b) \ W : Len(InGroup(q, b, g)) >= Len(InGroup(q, b, h))
        /\ SameBag(r, SelectSeq(q, LAMBDA x : Group(b, x) \in W))
PerGroup(k, b, q, r) ==
    /\ \A g \in Groups(b) : KWta(k, InGroup(q, b, g), InGroup(r, b, g))
    /\ Inside(r, q)
Union(msgs, r) == ToSet(r) = UNION {ToSet(msgs[i]) : i \in DOMAIN msgs} /\ Len(r) = Cardinality(ToSet(r))

Allowed(kind, k, b, msgs, r) ==
    IF msgs = <<>> THEN r = <<>>
    ELSE CASE kind = "kwta" -> KWta(k, msgs[1], r)
           [] kind = "group" -> GroupWta(k, b, msgs[1], r)
           [] kind = "pergroup" -> PerGroup(k, b, msgs[1], r)
           [] kind = "union" -> Union(msgs, r)

\* indexes which some allowed result contains: each must have its chance
Candidates(kind, k, b, q) ==
    CASE kind = "kwta" -> IF k = 0 THEN {} ELSE ToSet(q)
      [] kind = "pergroup" -> IF k = 0 THEN {} ELSE ToSet(q)
      [] kind = "group" -> {x \in ToSet(q) : Cardinality({g \in Groups(b) : Len(InGroup(q, b, g)) > Len(InGroup(q, b, Group(b, x)))}) < k}
      [] OTHER -> ToSet(q)
=============================================================================
