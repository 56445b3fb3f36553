----------------------------- MODULE Learning -----------------------------
(* Synaptic resource learning of one neuron and the plastic, unlocked         *)
(* connections that lead to it.                                               *)
(*                                                                            *)
(* Neuron state n: [F free resource, stab, isi, ls last step of a non-forced  *)
(* spike, lss last spike, first first spike of the sequence, forced, dop,     *)
(* add additional threshold].  Neuron parameters p: [coef, time, thr, drain,  *)
(* dh, scp, imax, isichg].  Connection state y: [w, r resource, last step     *)
(* at which a presynaptic spike crossed, hebb already strengthened in this    *)
(* sequence, con contributed].  Connection parameters q: [wmin, wmax, du,     *)
(* per, dl].                                                                  *)
(* Steps are whole numbers, other quantities have 16 fractional bits.         *)
EXTENDS Fine
FORCED == 0
STARTED == 1
CONTINUED == 2
OUTSIDE == 3

\* the weight a resource stands for
Weight(q, r) ==
    LET s == Max2(r, 0)  d == q.wmax - q.wmin
    IN IF s + d = 0 THEN q.wmin ELSE q.wmin + MulDiv(d, s, s + d)
Reweigh(qs, ys) == [i \in DOMAIN ys |-> [ys[i] EXCEPT !.w = Weight(qs[i], ys[i].r)]]

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
SumOf(f) == SumTo(f, Len(f))
\* free resource and resources of the connections together
Total(n, ys) == n.F + SumOf([i \in DOMAIN ys |-> ys[i].r])

\* the share of a learning amount that a neuron of this stability takes
Damped(x, stab) == MulDiv(x, Exp2Neg(stab), One)

\* where a firing neuron is in its sequence of spikes
IsiAfter(n) == IF n.forced THEN {FORCED} ELSE IF n.isi \in {FORCED, OUTSIDE} THEN {STARTED} ELSE {STARTED, CONTINUED}
FirstAfter(n, isi, t) == IF isi = FORCED \/ isi = CONTINUED THEN {n.first}
                         ELSE IF n.isi \in {FORCED, OUTSIDE} THEN {t} ELSE {n.first, t}
\* did a spike arrive over the connection in the last q.per steps before t
Arrived(q, y, t) == t - q.per <= y.last + q.dl - 1 /\ y.last + q.dl - 1 <= t

\* The neuron fires at step t.
Fire(p, qs, n, ys, t, isi, first, had) ==
    LET new == isi # CONTINUED
        y1 == [i \in DOMAIN ys |-> [ys[i] EXCEPT !.con = IF new \/ had[i] THEN had[i] ELSE @, !.hebb = IF new THEN FALSE ELSE @]]
        stab == IF isi = STARTED THEN n.stab - p.isichg ELSE n.stab
        gain == Damped(p.dh, stab)
        heb(i) == isi # FORCED /\ y1[i].con /\ ~y1[i].hebb
        dec(i) == IF isi = FORCED THEN 0 ELSE qs[i].du
        y2 == [i \in DOMAIN ys |-> [y1[i] EXCEPT !.r = @ - dec(i) + (IF heb(i) THEN gain ELSE 0), !.hebb = @ \/ heb(i)]]
    IN [n |-> [n EXCEPT !.lss = t, !.isi = isi, !.first = first, !.stab = stab, !.ls = IF isi = FORCED THEN @ ELSE t,
                        !.add = Mul(p.coef, SumOf([i \in DOMAIN ys |-> Max2(ys[i].w, 0)])),
                        !.F = @ + SumOf([i \in DOMAIN ys |-> dec(i) - (IF heb(i) THEN gain ELSE 0)])],
        ys |-> Reweigh(qs, y2)]

\* Dopamine reaches the neuron at step t: reward or, unless forced, punishment.
Doped(n) == n.dop > 0 \/ (n.dop < 0 /\ n.isi # FORCED)
Dopamine(p, qs, n, ys, t) ==
    IF ~Doped(n) THEN [n |-> n, ys |-> ys]
    ELSE LET open == t - n.lss <= p.time
             x == Damped(n.dop, n.stab)
             take(i) == IF open /\ ys[i].con THEN x ELSE 0
             y1 == [i \in DOMAIN ys |-> [ys[i] EXCEPT !.r = @ + take(i)]]
             d == Mul(n.dop, p.scp)
             late == Abs(t - n.first - p.imax)
         IN [n |-> [n EXCEPT !.F = @ - SumOf([i \in DOMAIN ys |-> take(i)]),
                             !.stab = IF n.forced \/ n.dop < 0 THEN Max2(@ - d, 0)
                                      ELSE @ + (IF late > 3 * p.imax THEN -d ELSE 2 * d - MulDiv(d, late, p.imax))],
             ys |-> Reweigh(qs, y1)]
\* the documented change of stability is only claimed when the sequence is not shorter than its longest interval
StabKnown(p, n, t) == ~(Doped(n) /\ ~n.forced /\ n.dop > 0) \/ t - n.first >= p.imax

\* Free resource is handed out to the connections when there is enough of it and the sequence of spikes is over.
Shares(p, n, t) == ~(t - n.ls <= p.imax /\ n.isi # FORCED) /\ p.thr # Huge /\ Abs(n.F) >= p.thr
Renorm(p, qs, n, ys, t) ==
    IF ~Shares(p, n, t) \/ ys = <<>> THEN [n |-> n, ys |-> ys]
    ELSE LET x == MulDiv(n.F, 1, Len(ys) + p.drain)
         IN [n |-> [n EXCEPT !.F = 0], ys |-> Reweigh(qs, [i \in DOMAIN ys |-> [ys[i] EXCEPT !.r = @ + x]])]

\* Everything that happens to one neuron and its connections in a step.
Train(p, qs, n, ys, t, fired, isi, first, had) ==
    LET a == IF fired THEN Fire(p, qs, n, ys, t, isi, first, had) ELSE [n |-> n, ys |-> ys]
        b == Dopamine(p, qs, a.n, a.ys, t)
    IN Renorm(p, qs, b.n, b.ys, t)
=============================================================================
