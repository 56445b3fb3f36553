------------------------------- MODULE Neuron -------------------------------
(* The step equations of every neuron kind, as functions on neuron records.  *)
(*   "blifat", "srblifat" : the BLIFAT neuron, plain and with resource STDP  *)
(*   "altai",  "sraltai"  : the AltAI LIF neuron, plain and with STDP        *)
(*   "lif"                : the plain LIF neuron                             *)
(* An impact is a record [v |-> value, ty |-> output type, f |-> forcing].   *)
EXTENDS Fix, Sequences

EXC == 0
INHCUR == 1
INHCOND == 2
DOPA == 3
BLOCK == 4

IsBlifat(k) == k \in {"blifat", "srblifat"}
IsAltai(k)  == k \in {"altai", "sraltai"}
IsSr(k)     == k \in {"srblifat", "sraltai"}

-----------------------------------------------------------------------------
(* Phase 1: before impacts *)
BlifatPre(n, sr) ==
    LET burst == n.bph > 0 /\ n.bph - 1 = 0
        p == FMul(n.pot, n.pdec)
        p2 == IF burst THEN FAdd(p, n.refl) ELSE p
        m == [n EXCEPT !.n = IF @ = MaxC THEN @ ELSE @ + 1,
                       !.dyn = FMul(@, n.tdec), !.tr = FMul(@, n.trdec), !.cond = FMul(@, n.cdec),
                       !.bph = IF @ > 0 THEN @ - 1 ELSE @, !.pot = p2, !.pre = p2]
    IN IF sr THEN [m EXCEPT !.dop = 0, !.forced = FALSE] ELSE m

AltaiPre(n, sr) ==
    LET p == IF n.nosave THEN n.reset ELSE FRound(n.pot)
        m == [n EXCEPT !.pot = p, !.pre = p]
    IN IF sr THEN [m EXCEPT !.dop = 0, !.forced = FALSE] ELSE m

LifPre(n) == IF n.rc = 0 THEN [n EXCEPT !.pot = FMul(@, n.leak)] ELSE n

Pre(k, n) == IF IsBlifat(k) THEN BlifatPre(n, IsSr(k))
             ELSE IF IsAltai(k) THEN AltaiPre(n, IsSr(k))
             ELSE LifPre(n)

-----------------------------------------------------------------------------
(* Phase 2: one impact *)
BlifatImpact(n, i) ==
    CASE i.ty = EXC     -> [n EXCEPT !.pot = FAdd(@, i.v)]
      [] i.ty = INHCUR  -> [n EXCEPT !.pot = FSub(@, i.v)]
      [] i.ty = INHCOND -> [n EXCEPT !.cond = FAdd(@, i.v)]
      [] i.ty = DOPA    -> [n EXCEPT !.dop = FAdd(@, i.v)]
      [] i.ty = BLOCK   -> [n EXCEPT !.blk = FTrunc(i.v)]

AltaiImpact(n, i) ==
    CASE i.ty = EXC    -> [n EXCEPT !.pot = FAdd(@, i.v)]
      [] i.ty = INHCUR -> [n EXCEPT !.pot = FSub(@, i.v)]
      [] i.ty = DOPA   -> [n EXCEPT !.dop = FAdd(@, i.v)]
      [] i.ty = BLOCK  ->
            LET t == FTrunc(i.v)     \* blocking values are whole numbers
            IN IF (n.at < 0) # (t < 0) \/ FAbs(n.at) <= FAbs(t) THEN [n EXCEPT !.at = t] ELSE n

LifImpact(n, i) ==
    IF n.rc # 0 THEN n
    ELSE CASE i.ty = EXC -> [n EXCEPT !.pot = FAdd(@, i.v)]
           [] i.ty = INHCUR -> [n EXCEPT !.pot = FSub(@, i.v)]

Impact(k, n, i) ==
    LET m == IF IsBlifat(k) THEN BlifatImpact(n, i)
             ELSE IF IsAltai(k) THEN AltaiImpact(n, i)
             ELSE LifImpact(n, i)
    IN IF IsSr(k) /\ i.ty = EXC /\ i.f THEN [m EXCEPT !.forced = TRUE] ELSE m

\* kinds of impact a neuron kind accepts
Accepts(k) == IF IsBlifat(k) THEN {EXC, INHCUR, INHCOND, DOPA, BLOCK}
              ELSE IF IsAltai(k) THEN {EXC, INHCUR, DOPA, BLOCK}
              ELSE {EXC, INHCUR}

RECURSIVE Impacts(_, _, _)
Impacts(k, n, is) == IF is = <<>> THEN n ELSE Impacts(k, Impact(k, n, Head(is)), Tail(is))

-----------------------------------------------------------------------------
(* Phase 3: after impacts.  Result [n |-> neuron, sp |-> fired, ok |-> every number compared was exact] *)
BlifatPost(n) ==
    LET p1 == IF n.blk <= 0 THEN n.pre ELSE n.pot        \* blocked: the impacts of this step are ignored
        b1 == IF n.blk < 0 THEN (IF n.blk + 1 = 0 THEN MaxC ELSE n.blk + 1)
              ELSE IF n.blk > 0 THEN n.blk - 1 ELSE 0
        p2 == IF n.cond < S THEN FSub(p1, FMul(FSub(p1, n.rev), n.cond)) ELSE n.rev
        thr == FAdd(FAdd(n.act, n.dyn), n.add)
        ok == n.cond # Bad /\ p2 # Bad /\ thr # Bad /\ n.min # Bad
        sp == n.n > n.refr /\ p2 >= thr
        m1 == [n EXCEPT !.blk = b1, !.pot = p2]
        m2 == IF sp THEN [m1 EXCEPT !.dyn = FAdd(@, n.tinc), !.tr = FAdd(@, n.trinc), !.pot = n.reset,
                                    !.bph = n.bper, !.n = 0]
              ELSE m1
        m3 == [m2 EXCEPT !.pot = IF @ # Bad /\ @ < n.min THEN n.min ELSE @]
    IN [n |-> m3, sp |-> sp, ok |-> ok]

AltaiPost(n) ==
    LET p1 == FAdd(n.pot, IF n.leakrev /\ n.pot < 0 THEN -n.leak ELSE n.leak)
        a1 == IF n.at > 0 THEN n.at - 1 ELSE IF n.at < 0 THEN n.at + 1 ELSE 0
        a2 == IF a1 = 0 THEN MaxC ELSE a1
        thr == FAdd(n.act, n.add)
        ok == p1 # Bad /\ thr # Bad
        over == p1 >= thr
        p2 == IF ~over THEN p1
              ELSE IF n.isreset THEN n.reset
              ELSE IF n.diff THEN FSub(p1, thr) ELSE p1
        wasReset == over /\ n.isreset
        under == p2 <= -n.nact /\ ~wasReset
        p3 == IF ~under THEN p2
              ELSE IF n.sat THEN -n.nact
              ELSE IF n.isreset THEN -n.reset
              ELSE IF n.diff THEN FAdd(p2, n.nact) ELSE p2
    IN [n |-> [n EXCEPT !.pot = p3, !.at = a2], sp |-> over /\ a2 > 0, ok |-> ok /\ p2 # Bad]

LifPost(n) ==
    IF n.rc = 0
    THEN IF n.pot > n.act
         THEN [n |-> [n EXCEPT !.pot = n.reset, !.rc = n.rp], sp |-> TRUE, ok |-> n.pot # Bad]
         ELSE [n |-> n, sp |-> FALSE, ok |-> n.pot # Bad]
    ELSE [n |-> [n EXCEPT !.rc = @ - 1], sp |-> FALSE, ok |-> TRUE]

Post(k, n) == IF IsBlifat(k) THEN BlifatPost(n)
              ELSE IF IsAltai(k) THEN AltaiPost(n)
              ELSE LifPost(n)

\* A whole step of one neuron.
NeuronStep(k, n, is) ==
    LET r == Post(k, Impacts(k, Pre(k, n), is)) IN r

\* Training resets the additional threshold of a firing STDP neuron that has no plastic connections.
NeuronStepT(k, n, is, plastic) ==
    LET r == NeuronStep(k, n, is)
    IN IF IsSr(k) /\ r.sp /\ ~plastic THEN [r EXCEPT !.n.add = 0] ELSE r

-----------------------------------------------------------------------------
(* What can be seen of a neuron, in the order the drivers log it. *)
B2I(b) == IF b THEN 1 ELSE 0
Obs(k, n) ==
    IF k = "blifat" THEN <<n.n, n.add, n.dyn, n.tr, n.cond, n.pot, n.bph, n.blk, n.dop>>
    ELSE IF k = "srblifat" THEN <<n.n, n.add, n.dyn, n.tr, n.cond, n.pot, n.bph, n.blk, n.dop, B2I(n.forced)>>
    ELSE IF k = "altai" THEN <<n.pot, n.dop, n.add, n.at>>
    ELSE IF k = "sraltai" THEN <<n.pot, n.dop, n.add, n.at, B2I(n.forced)>>
    ELSE <<n.pot, n.rc>>

\* the neuron n with what was seen of it (used when the specification's own numbers are not exact)
Adopt(k, n, o) ==
    IF k = "blifat" THEN [n EXCEPT !.n = o[1], !.add = Fx(o[2]), !.dyn = Fx(o[3]), !.tr = Fx(o[4]), !.cond = Fx(o[5]),
                                   !.pot = Fx(o[6]), !.bph = o[7], !.blk = o[8], !.dop = Fx(o[9])]
    ELSE IF k = "srblifat" THEN [n EXCEPT !.n = o[1], !.add = Fx(o[2]), !.dyn = Fx(o[3]), !.tr = Fx(o[4]), !.cond = Fx(o[5]),
                                   !.pot = Fx(o[6]), !.bph = o[7], !.blk = o[8], !.dop = Fx(o[9]), !.forced = o[10] = 1]
    ELSE IF k = "altai" THEN [n EXCEPT !.pot = Fx(o[1]), !.dop = Fx(o[2]), !.add = Fx(o[3]), !.at = o[4]]
    ELSE IF k = "sraltai" THEN [n EXCEPT !.pot = Fx(o[1]), !.dop = Fx(o[2]), !.add = Fx(o[3]), !.at = o[4], !.forced = o[5] = 1]
    ELSE [n EXCEPT !.pot = Fx(o[1]), !.rc = o[2]]

\* fixed-point fields that are Bad make the comparison of the whole neuron pointless
Exact(k, n) ==
    IF IsBlifat(k) THEN Bad \notin {n.add, n.dyn, n.tr, n.cond, n.pot, n.dop}
    ELSE IF IsAltai(k) THEN Bad \notin {n.pot, n.dop, n.add}
    ELSE n.pot # Bad
=============================================================================
