------------------------------ MODULE LibTrace ------------------------------
(* Recorded calls of builders, validators, data sets, evaluation and          *)
(* normalisers.                                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
B == INSTANCE Builders
V == INSTANCE Validation
S == INSTANCE Scoring
N == INSTANCE Normal
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, d
vars == <<l, net, d>>
E == Trace[l]
None == [pops |-> <<>>, projs |-> <<>>]
NoData == [recs |-> <<>>, train |-> 0, infer |-> 0, steps |-> 1, size |-> 1, classes |-> 1]
Init == l = 1 /\ net = None /\ d = NoData
Reset == E.ev = "reset" /\ net' = None /\ d' = NoData
Build == /\ E.ev = "build"
         /\ IF E.a.kind = "prob" /\ ~(E.a.p \in 0..16) THEN E.refused = 1
            ELSE TRUE = (/\ E.refused = 0 /\ B!Built(E.a, E.r) /\ E.size = Len(E.r) /\ <<E.pre, E.post>> = B!Ends(E.a) /\ B!Once(E.a, E.r, E.calls))
         /\ UNCHANGED <<net, d>>
Spread == E.ev = "spread" /\ E.refused = 0 /\ TRUE = B!Spread(E.a, E.r) /\ UNCHANGED <<net, d>>
Pop == E.ev = "pop" /\ TRUE = B!Population(E.a, E.r, E.size) /\ UNCHANGED <<net, d>>
Net == E.ev = "net" /\ net' = E.a /\ UNCHANGED d
Connectivity == E.ev = "connectivity" /\ TRUE = V!Reported(net, E.r) /\ UNCHANGED <<net, d>>
Exec == /\ E.ev = "exec" /\ Len(E.r) = E.a.times
        /\ TRUE = \A i \in DOMAIN E.r : V!Run(net, E.a.validators, E.r[i])
        /\ UNCHANGED <<net, d>>
Data == /\ E.ev = "data"
        /\ E.r = S!Records(E.a) /\ E.size = E.a.size /\ E.classes = E.a.classes /\ E.steps = E.a.steps
        /\ d' = [recs |-> E.r, train |-> Len(E.r), infer |-> 0, steps |-> E.steps, size |-> E.size, classes |-> E.classes]
        /\ UNCHANGED net
Split == /\ E.ev = "split"
         /\ LET ok == S!Fits(d, E.a.train, E.a.infer)
            IN /\ E.r = (IF ok THEN "ok" ELSE "refused")
               /\ d' = IF ok THEN [d EXCEPT !.train = E.a.train, !.infer = E.a.infer] ELSE d
         /\ E.train = S!Train(d') /\ E.infer = S!Infer(d')
         /\ E.tsteps = d'.train * d.steps /\ E.isteps = d'.infer * d.steps
         /\ UNCHANGED net
Gen == /\ E.ev = "gen" /\ Len(E.r) = Len(E.a.steps)
       /\ TRUE = \A i \in DOMAIN E.r :
             LET k == E.a.steps[i]
             IN E.r[i] = IF E.a.train = 1 THEN <<k, S!Label(d, k), S!Pixels(S!Train(d), d, k)>> ELSE <<k, S!Pixels(S!Infer(d), d, k)>>
       /\ UNCHANGED <<net, d>>
Infer == /\ E.ev = "infer"
         /\ LET ans == TLCEval(S!Answers(d, E.a.spikes))
            IN TRUE = (/\ Len(E.r) = d.classes
                       /\ \A c \in 0..d.classes - 1 : E.r[c + 1] = IF E.a.documented = 1 THEN S!Documented(d, ans, c) ELSE S!Counts(d, ans, c))
         /\ E.head = S!Header /\ Len(E.csv) = d.classes
         /\ TRUE = \A c \in 0..d.classes - 1 : S!Row(c, E.r[c + 1], E.csv[c + 1], E.a.strict = 1)
         /\ UNCHANGED <<net, d>>
Norm == E.ev = "norm" /\ TRUE = N!Normalised(E.a, E.r) /\ UNCHANGED <<net, d>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Build \/ Spread \/ Pop \/ Net \/ Connectivity \/ Exec \/ Data \/ Split \/ Gen \/ Infer \/ Norm)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
