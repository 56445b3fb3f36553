------------------------------- MODULE Scoring -------------------------------
(* Data sets of images and labels, their split, the generators that feed a    *)
(* model from them, and the evaluation of what the model answered.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Min2(x, y) == IF x < y THEN x ELSE y
Bit(x, k) == (x \div (2 ^ k)) % 2

\* ---- records: whole images that have a label, as many as asked for
Whole(a) == LET bytes == Len(a.images) * a.size - a.cut IN (IF bytes < 0 THEN 0 ELSE bytes) \div a.size
Number(a) == Min2(Min2(Whole(a), Len(a.labels)), a.max)
\* bits of an image with the plain converter of the check
Plain(a, im) == [i \in 1..a.steps * a.size |-> Bit(im[((i - 1) % a.size) + 1], ((i - 1) \div a.size) % 8)]
\* the incrementing converter: every active step adds the pixel times the factor (10 fractional bits); what reaches 1 sends a
\* spike and goes down by 1; what remains is carried on, also to the next image.  State: one number for every pixel.
One == 1024
RECURSIVE Incr(_, _, _, _)
Incr(a, im, st, k) ==
    IF k = 0 THEN [st |-> st, bits |-> <<>>]
    ELSE LET up == TLCEval([i \in 1..a.size |-> st[i] + a.factor * im[i]])
             now == TLCEval([i \in 1..a.size |-> IF up[i] >= One THEN 1 ELSE 0])
             rest == TLCEval(Incr(a, im, TLCEval([i \in 1..a.size |-> up[i] - One * now[i]]), k - 1))
         IN [st |-> rest.st, bits |-> now \o rest.bits]
RECURSIVE Increments(_, _, _, _)
Increments(a, k, n, st) ==
    IF k > n THEN <<>>
    ELSE LET r == TLCEval(Incr(a, a.images[k], st, a.active))
         IN <<r.bits \o [i \in 1..(a.steps - a.active) * a.size |-> 0]>> \o Increments(a, k + 1, n, r.st)
Records(a) ==
    LET n == Number(a)
        fr == IF a.conv = 1 THEN Increments(a, 1, n, [i \in 1..a.size |-> 0]) ELSE [i \in 1..n |-> Plain(a, a.images[i])]
    IN [i \in 1..n |-> <<a.labels[i], fr[i]>>]

\* ---- split: d = [recs, train, infer, steps, size, classes]
Fits(d, x, y) == x + y <= Len(d.recs)
Train(d) == SubSeq(d.recs, 1, d.train)
Infer(d) == SubSeq(d.recs, d.train + 1, d.train + d.infer)

\* ---- generators: what is presented at step k; parts are repeated when they end
Shown(part, d, k) == part[((k \div d.steps) % Len(part)) + 1]
Label(d, k) == <<Shown(Train(d), d, k)[1]>>
Pixels(part, d, k) == LET f == Shown(part, d, k)[2]  off == (k % d.steps) * d.size
                      IN SelectSeq([i \in 1..d.size |-> IF f[off + i] = 1 THEN i - 1 ELSE -1], LAMBDA x : x >= 0)

\* ---- evaluation: spikes <<step, indexes>> in order of steps
During(d, sp, r) == FoldLeft(LAMBDA q, x : IF x[1] \div d.steps = r - 1 THEN q \o x[2] ELSE q, <<>>, sp)
Votes(d, q, c) == Cardinality({i \in DOMAIN q : q[i] % d.classes = c})
\* the class with the most votes, the lowest of equals; -1 without votes
Answer(d, sp, r) == LET q == During(d, sp, r)
                    IN IF q = <<>> THEN -1
                       ELSE CHOOSE c \in 0..d.classes - 1 : /\ \A e \in 0..d.classes - 1 : Votes(d, q, e) <= Votes(d, q, c)
                                                            /\ \A e \in 0..c - 1 : Votes(d, q, e) < Votes(d, q, c)
Answers(d, sp) == [r \in 1..d.infer |-> Answer(d, sp, r)]
Sum(ans, P(_)) == Cardinality({r \in DOMAIN ans : P(r)})
\* a record counts for its own class: right, wrongly answered, or not answered; for all other classes it is a true negative
Counts(d, ans, c) ==
    LET mine(r) == Infer(d)[r][1] = c
        tp == Sum(ans, LAMBDA r : mine(r) /\ ans[r] = c)
        fn == Sum(ans, LAMBDA r : mine(r) /\ ans[r] = -1)
        fp == Sum(ans, LAMBDA r : mine(r) /\ ans[r] # c /\ ans[r] # -1)
    IN <<tp, fn, fp, Len(ans) - tp - fn - fp, tp + fn + fp>>
\* as the documentation of the counters defines them: a wrong answer is a false positive of the class answered
Documented(d, ans, c) ==
    LET mine(r) == Infer(d)[r][1] = c
        tp == Sum(ans, LAMBDA r : mine(r) /\ ans[r] = c)
        fn == Sum(ans, LAMBDA r : mine(r) /\ ans[r] # c)
        fp == Sum(ans, LAMBDA r : ~mine(r) /\ ans[r] = c)
    IN <<tp, fn, fp, Len(ans) - tp - fn - fp, tp + fn + fp>>

\* ---- scores, in millionths
Ratio(v, x, y) == IF y = 0 THEN v = 0 ELSE LET e == v * y - x * 1000000 IN -2 * y <= e /\ e <= 2 * y
Row(c, n, row, strict) ==
    LET tp == n[1]  fn == n[2]  fp == n[3]  tn == n[4]  all == tp + fn + fp + tn
        f(x) == IF tp = 0 THEN row[11] = 0 ELSE Ratio(row[11], 2 * tp, 2 * tp + fp + x)
    IN /\ SubSeq(row, 1, 6) = <<c, n[5], tp, fn, fp, tn>>
       /\ Ratio(row[7], tp, tp + fp)
       /\ \/ Ratio(row[8], tp, tp + fn) /\ f(fn)
          \/ ~strict /\ Ratio(row[8], tp, tp + fp) /\ f(fp)       \* the known finding
       /\ Ratio(row[9], tp + fn, all) /\ Ratio(row[10], tp + tn, all)
Header == "CLASS,TOTAL_VOTES,TRUE_POSITIVES,FALSE_NEGATIVES,FALSE_POSITIVES,TRUE_NEGATIVES,PRECISION,RECALL,PREVALENCE,ACCURACY,F_SCORE"
=============================================================================
