----------------------------- MODULE ScoringMC -----------------------------
(* Every small data set and every small answer: records are neither lost nor  *)
(* counted twice.  GEN emits evaluations for the real code.                   *)
EXTENDS Scoring, Json
CONSTANTS NREC, NCLS, STEPS, GEN
VARIABLES d, sp, t
Rec(c) == <<c, <<>>>>
Init == \E n \in 0..NREC : \E f \in [1..n -> 0..NCLS - 1], x \in 0..n, k \in 1..STEPS :
            /\ d = [recs |-> [i \in 1..n |-> Rec(f[i])], train |-> x, infer |-> n - x, steps |-> k, size |-> 0, classes |-> NCLS]
            /\ sp = <<>> /\ t = 0
\* step by step the model answers something
Next == /\ t < d.infer * d.steps /\ t' = t + 1 /\ UNCHANGED d
        /\ \E m \in {<<>>} \cup {<<i>> : i \in 0..NCLS} \cup {<<0, 1>>, <<1, 1>>} : sp' = IF m = <<>> THEN sp ELSE Append(sp, <<t, m>>)
Spec == Init /\ [][Next]_<<d, sp, t>>
Ans == Answers(d, sp)
NothingLost == Train(d) \o Infer(d) = d.recs
SumAll(f) == FoldLeft(LAMBDA a, c : a + f[c + 1], 0, [i \in 1..NCLS |-> i - 1])
AddsUp == \A c \in 0..NCLS - 1 : LET n == Counts(d, Ans, c) IN n[1] + n[2] + n[3] + n[4] = d.infer /\ n[4] >= 0
OnceEach == SumAll([i \in 1..NCLS |-> Counts(d, Ans, i - 1)[5]]) = d.infer
\* answers depend on the spikes of their own record only
Local == \A r \in 1..d.infer : (\A i \in DOMAIN sp : sp[i][1] \div d.steps # r - 1) => Ans[r] = -1
\* both ways to count agree on what was answered right
Agree == \A c \in 0..NCLS - 1 : Counts(d, Ans, c)[1] = Documented(d, Ans, c)[1]
Emit == (GEN /\ t = d.infer * d.steps /\ t > 0) => PrintT("BEH " \o ToJson([labels |-> [i \in DOMAIN d.recs |-> d.recs[i][1]], train |-> d.train, infer |-> d.infer, steps |-> d.steps, classes |-> d.classes, spikes |-> sp]))
=============================================================================
