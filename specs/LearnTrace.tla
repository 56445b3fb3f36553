---------------------------- MODULE LearnTrace ----------------------------
(* Did learning in a recorded run of a real backend follow its rules?         *)
(* Spikes, dopamine and forcing are taken as reported; the learning state of  *)
(* every neuron and connection after each step must be what the rules make of *)
(* the state before it.                                                       *)
EXTENDS Learning, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, ln, ls, w, t
vars == <<l, net, ln, ls, w, t>>
E == Trace[l]
Sr(k) == k \in {"srblifat", "sraltai"}

Neuron(x) == [F |-> x[1], stab |-> x[2], isi |-> x[3], ls |-> x[4], lss |-> x[5], first |-> x[6], forced |-> x[7] = 1,
              dop |-> x[8], add |-> x[9]]
Conn(x) == [w |-> x[1], r |-> x[2], last |-> x[3], hebb |-> x[4] = 1, con |-> x[5] = 1]

Init == l = 1 /\ net = [pops |-> <<>>, projs |-> <<>>] /\ ln = <<>> /\ ls = <<>> /\ w = <<>> /\ t = 0
Reset ==
    /\ E.ev = "reset"
    /\ net' = E.net /\ ln' = E.ln /\ ls' = E.ls /\ w' = E.w /\ t' = 0
Lock ==
    /\ E.ev \in {"lock", "unlock"}
    /\ net' = [net EXCEPT !.projs = [q \in DOMAIN @ |-> [@[q] EXCEPT !.locked = (E.ev = "lock")]]]
    /\ UNCHANGED <<ln, ls, w, t>>

T1 == 4     \* units in the last of 16 fractional places
Plastic(q, id) == net.projs[q].kind = "sr" /\ ~net.projs[q].locked /\ net.projs[q].post = id
\* the plastic connections into neuron j (from 1) of population p: pairs <<projection, connection>>
Into(p, j) == TLCEval(FoldLeft(LAMBDA a, q : IF Plastic(q, net.pops[p].id)
                  THEN a \o SelectSeq([i \in DOMAIN net.projs[q].syn |-> <<q, i>>], LAMBDA x : net.projs[q].syn[x[2]].d = j - 1)
                  ELSE a, <<>>, [q \in DOMAIN net.projs |-> q]))

SameConn(a, b, tol) == Close(a.w, b.w, tol) /\ Close(a.r, b.r, tol) /\ a.hebb = b.hebb /\ a.con = b.con
\* spikes that reached projection q in this step: does a spike of source s cross it
Crossed(q, s, msgs) == \E i \in DOMAIN msgs : msgs[i][1] \in ToSet(net.projs[q].src) /\ s \in ToSet(msgs[i][2])

\* neuron j of population p
NeuronOk(p, j) ==
    LET o == Neuron(E.ln[p][j])
        n == [Neuron(ln[p][j]) EXCEPT !.forced = o.forced, !.dop = o.dop]
        pr == net.pops[p].lp[j]
        cs == Into(p, j)
        qs == TLCEval([i \in DOMAIN cs |-> net.projs[cs[i][1]].sp[cs[i][2]]])
        ys == TLCEval([i \in DOMAIN cs |-> Conn(ls[cs[i][1]][cs[i][2]])])
        os == TLCEval([i \in DOMAIN cs |-> Conn(E.ls[cs[i][1]][cs[i][2]])])
        fired == (j - 1) \in ToSet(E.sp[p])
        \* early in a run the length of the period is not judged: the real flag is taken
        had == TLCEval([i \in DOMAIN cs |-> IF t >= qs[i].per THEN Arrived(qs[i], ys[i], t) ELSE os[i].con])
        r == TLCEval(Train(pr, qs, n, ys, t, fired, o.isi, o.first, had))
        a == IF fired THEN Fire(pr, qs, n, ys, t, o.isi, o.first, had) ELSE [n |-> n, ys |-> ys]
        tol == T1 + Len(cs) + Abs(n.F) \div (64 * U)
        touched == fired \/ Doped(a.n) \/ Shares(pr, Dopamine(pr, qs, a.n, a.ys, t).n, t)
        \* near the threshold of handing out it cannot be told from outside which way rounding went
        edge == pr.thr # Huge /\ Abs(Abs(Dopamine(pr, qs, a.n, a.ys, t).n.F) - pr.thr) <= tol /\ pr.thr % 64 # 0
    IN IF n.F = Huge \/ o.F = Huge \/ edge THEN TRUE
       ELSE /\ IF fired THEN o.isi \in IsiAfter(n) /\ o.first \in FirstAfter(n, o.isi, t) ELSE o.isi = n.isi /\ o.first = n.first
            /\ o.ls = r.n.ls /\ o.lss = r.n.lss
            /\ Close(o.F, r.n.F, tol)
            /\ StabKnown(pr, a.n, t) => Close(o.stab, r.n.stab, tol)
            /\ Close(o.add, r.n.add, 4 * tol) \/ ~fired
            /\ \A i \in DOMAIN cs : SameConn(os[i], r.ys[i], tol)
            \* nobody else's activity changes the connections
            /\ ~touched => \A i \in DOMAIN cs : E.w[cs[i][1]][cs[i][2]] = w[cs[i][1]][cs[i][2]] /\ os[i].r = ys[i].r
            /\ touched /\ cs # <<>> => \A i \in DOMAIN cs : qs[i].wmin - T1 <= os[i].w /\ os[i].w <= qs[i].wmax + T1

Step ==
    /\ E.ev = "step" /\ E.t = t
    /\ Len(E.ln) = Len(net.pops) /\ Len(E.ls) = Len(net.projs)
    /\ LET msgs == TLCEval([i \in DOMAIN E.in |-> <<E.in[i][1], E.in[i][3]>>] \o [p \in DOMAIN net.pops |-> <<net.pops[p].id, E.sp[p]>>])
       IN /\ TRUE = \A p \in DOMAIN net.pops : Sr(net.pops[p].kind) =>
                LET size == Len(net.pops[p].lp) IN Len(E.ln[p]) = size /\ \A j \in 1..size : NeuronOk(p, j)
          \* connections whose weight nothing may change, and the record of when a spike last crossed a connection
          /\ TRUE = \A q \in DOMAIN net.projs :
                LET pr == net.projs[q]
                    learns == pr.kind = "sr" /\ ~pr.locked /\ \E p \in DOMAIN net.pops : net.pops[p].id = pr.post /\ Sr(net.pops[p].kind)
                IN /\ Len(E.ls[q]) = Len(pr.syn)
                   /\ ~learns => /\ E.w[q] = w[q] \/ (pr.kind = "add" /\ ~pr.locked)
                                 /\ pr.kind = "sr" => \A i \in DOMAIN pr.syn : [E.ls[q][i] EXCEPT ![3] = 0] = [ls[q][i] EXCEPT ![3] = 0]
                   /\ pr.kind = "sr" => \A i \in DOMAIN pr.syn :
                         E.ls[q][i][3] = IF Crossed(q, pr.syn[i].s, msgs) THEN t ELSE ls[q][i][3]
    /\ ln' = E.ln /\ ls' = E.ls /\ w' = E.w /\ t' = t + 1
    /\ UNCHANGED net

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Step \/ Lock)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
