------------------------------- MODULE Convert -------------------------------
(* Converters between spikes and data.  A stream is a sequence of tokens     *)
(* (sequence converter) or of lines of indexes (index converter); pos counts *)
(* what has been consumed.                                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Accept(c, v) == IF c.bool THEN v # 0 ELSE v >= c.thr
\* the next n tokens, as far as there are any; positions count from 0
Portion(c, pos, n) == SubSeq(c.data, pos + 1, IF pos + n < Len(c.data) THEN pos + n ELSE Len(c.data))
Reads(c, pos, n) == LET p == Portion(c, pos, n)
                      hit == SelectSeq([i \in DOMAIN p |-> i], LAMBDA i : Accept(c, p[i]))
                  IN [i \in DOMAIN hit |-> hit[i] - 1]
Line(c, pos) == IF pos < Len(c.data) THEN c.data[pos + 1] ELSE <<>>

Among(ms, x) == Cardinality({<<i, j>> \in (DOMAIN ms) \X (1..40) : j \in DOMAIN ms[i] /\ ms[i][j] = x})
Out(kind, n, ms) ==
    CASE kind = "count" -> [i \in 1..n |-> Among(ms, i - 1)]
      [] kind = "bits" -> [i \in 1..n |-> IF Among(ms, i - 1) > 0 THEN 1 ELSE 0]
      [] kind = "set" -> SetToSortSeq({x \in UNION {ToSet(ms[i]) : i \in DOMAIN ms} : x < n}, LAMBDA a, b : a < b)
=============================================================================
