--------------------------- MODULE AdditiveTrace ---------------------------
(* Did the additive projections of a recorded run learn by the rule?          *)
EXTENDS Additive, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, ls, w, t
vars == <<l, net, ls, w, t>>
E == Trace[l]
Init == l = 1 /\ net = [pops |-> <<>>, projs |-> <<>>] /\ ls = <<>> /\ w = <<>> /\ t = 0
Reset == E.ev = "reset" /\ net' = E.net /\ ls' = E.ls /\ w' = E.w /\ t' = 0
Lock == E.ev \in {"lock", "unlock"} /\ UNCHANGED <<net, ls, w, t>>
RECURSIVE Count(_, _)
Count(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + Count(Tail(s), x)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
\* spikes of the learning sources of a projection: of all of them, or only of those that also cross the connections
From(pr, msgs, both) ==
    Flat([i \in DOMAIN msgs |-> IF \/ msgs[i][1] \notin ToSet(pr.src) \/ msgs[i][1] \notin ToSet(pr.stdp)
                                   \/ (both /\ msgs[i][1] \in ToSet(pr.only)) THEN <<>> ELSE msgs[i][2]])
Conn(x) == [w |-> x[1], pre |-> x[2], post |-> x[3]]
Step ==
    /\ E.ev = "step" /\ E.t = t
    /\ LET msgs == TLCEval([i \in DOMAIN E.in |-> <<E.in[i][1], E.in[i][3]>>] \o [p \in DOMAIN net.pops |-> <<net.pops[p].id, E.sp[p]>>])
       IN TRUE = \A q \in DOMAIN net.projs :
            LET pr == net.projs[q]
                both == TLCEval(From(pr, msgs, TRUE))  all == TLCEval(From(pr, msgs, FALSE))
            IN pr.kind = "add" =>
               /\ Len(E.ls[q]) = Len(pr.syn)
               /\ \A i \in DOMAIN pr.syn :
                    LET y == Conn(ls[q][i])  o == Conn(E.ls[q][i])
                        y1 == Recall(pr.sp[i], y, t, Count(both, pr.syn[i].s), Count(all, pr.syn[i].d))
                        r == Apply(pr.sp[i], y1)
                    IN /\ o.pre = r.pre /\ o.post = r.post
                       /\ Close(o.w, r.w, 4 + Len(y1.pre) * Len(y1.post))
                       \* without a complete history on both sides the weight stays what it was, to the bit
                       /\ ~Ripe(y1, pr.sp[i].tp + pr.sp[i].tm) => E.w[q][i] = w[q][i]
    /\ ls' = E.ls /\ w' = E.w /\ t' = t + 1 /\ UNCHANGED net
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Step \/ Lock)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
