------------------------------ MODULE NeuronMC ------------------------------
(* One neuron of each kind under every impact sequence, for many parameter   *)
(* choices: the consequences users rely on.                                  *)
EXTENDS Neuron, FiniteSets, TLC, SequencesExt
CONSTANTS KIND, MAXT, WIDE        \* neuron kind, steps, more impacts
\* the impacts a step may bring
I(v, ty) == [v |-> v, ty |-> ty, f |-> TRUE]
IMPS ==
    {<<>>, <<I(S, EXC)>>, <<I(2 * S, EXC), I(S, INHCUR)>>}
    \cup (IF KIND = "lif" THEN {<<I(S \div 2, INHCUR)>>} ELSE {<<I(2 * S, EXC), I(-S, BLOCK)>>})
    \cup (IF IsBlifat(KIND) THEN {<<I(S, EXC), I(S \div 2, INHCOND)>>} ELSE {})
    \cup (IF WIDE THEN {<<I(3 * S, EXC)>>, <<I(2 * S, INHCUR), I(S, EXC)>>} ELSE {})
VARIABLES n0, n, t, last, sp, burst, blocked
\* n0: parameters as created; last: step of the last spike (-1 none); sp: fired in the last step
\* burst: steps until the bursting potential is due (0 none)
vars == <<n0, n, t, last, sp, burst, blocked>>

H == S \div 2
Q == S \div 4
BlifatParams ==
    {[n |-> since, act |-> S, add |-> 0, dyn |-> 0, tdec |-> td, tinc |-> S, tr |-> 0, trdec |-> H, trinc |-> S,
      cond |-> 0, cdec |-> cd, pot |-> 0, pre |-> 0, pdec |-> pd, bph |-> 0, bper |-> bp, refl |-> S, rev |-> -Q,
      refr |-> rf, reset |-> 0, min |-> mn, blk |-> bl, dop |-> 0, forced |-> FALSE] :
        since \in {MaxC, 0}, td \in {0, H}, cd \in {0, H}, pd \in {0, S}, bp \in {0, 1, 2, 3}, rf \in {0, 2},
        mn \in {-500 * S, -H}, bl \in {MaxC, -2, 0, 1}}
AltaiParams ==
    {[diff |-> df, isreset |-> rs, leakrev |-> lr, sat |-> sa, nosave |-> ns, pot |-> 0, pre |-> 0, act |-> 2 * S,
      nact |-> na, leak |-> lk, reset |-> re, dop |-> 0, add |-> 0, at |-> at, forced |-> FALSE] :
        df \in BOOLEAN, rs \in BOOLEAN, lr \in BOOLEAN, sa \in BOOLEAN, ns \in BOOLEAN, na \in {S, 100 * S}, lk \in {-S, 0, S},
        re \in {0, S}, at \in {0, -2, 2}}
LifParams ==
    {[pot |-> 0, reset |-> re, act |-> S, leak |-> le, rc |-> rc, rp |-> rp] :
        re \in {0, -S, H}, le \in {0, H, S}, rc \in {0, 1}, rp \in {0, 1, 2, 3}}
Params == IF IsBlifat(KIND) THEN BlifatParams ELSE IF IsAltai(KIND) THEN AltaiParams ELSE LifParams

Init == n0 \in Params /\ n = n0 /\ t = 0 /\ last = -1 /\ sp = FALSE /\ burst = 0 /\ blocked = FALSE
Step(is) ==
    LET r == NeuronStepT(KIND, n, is, FALSE) IN
    /\ r.ok /\ Exact(KIND, r.n)          \* stay where the numbers are exact
    /\ n' = r.n /\ sp' = r.sp /\ t' = t + 1 /\ last' = (IF r.sp THEN t ELSE last)
    /\ burst' = IF IsBlifat(KIND) THEN (IF r.sp THEN n.bper ELSE IF burst > 0 THEN burst - 1 ELSE 0) ELSE 0
    /\ blocked' = (IF IsBlifat(KIND) THEN Impacts(KIND, Pre(KIND, n), is).blk <= 0 ELSE IF IsAltai(KIND) THEN r.n.at <= 0 ELSE FALSE)
    /\ UNCHANGED n0
Next == t < MAXT /\ \E is \in IMPS : Step(is)
Spec == Init /\ [][Next]_vars

\* --- consequences
\* two spikes are further apart than the refractory period
Refractory == [][sp' /\ last >= 0 =>
    t - last > (IF IsBlifat(KIND) THEN n0.refr ELSE IF KIND = "lif" THEN n0.rp ELSE 0)]_vars
\* a neuron that has never fired is not refractory
FreshFires == [][(IsBlifat(KIND) /\ last = -1 /\ n0.n = MaxC) => n'.n \in {MaxC, 0}]_vars
MinPotential == (IsBlifat(KIND) /\ t > 0) => n.pot >= n.min
AltaiFloor == (IsAltai(KIND) /\ t > 0 /\ n.sat /\ ~n.isreset) => n.pot >= -n.nact
\* the counter of steps since the last spike is exact
Since == (IsBlifat(KIND) /\ last >= 0) => n.n = t - 1 - last
\* the bursting counter is the number of steps to the burst
BurstCount == (IsBlifat(KIND) /\ last >= 0) => n.bph = burst
\* a firing neuron is at its reset potential
ResetOnSpike == (sp /\ (KIND = "lif" \/ (IsBlifat(KIND) /\ n.reset >= n.min))) => n.pot = n.reset
ResetAltai == (sp /\ IsAltai(KIND) /\ n.isreset) => n.pot = n.reset
\* a blocked BLIFAT neuron ignores what it is sent; a blocked AltAI neuron does not fire
BlockedDeaf == [][(IsBlifat(KIND) /\ blocked') =>
                    LET q == NeuronStepT(KIND, n, <<>>, FALSE) IN
                    (n.cond = 0 /\ n'.cond = 0 /\ n.blk <= 0) => (n'.pot = q.n.pot /\ sp' = q.sp)]_vars
BlockedSilent == (IsAltai(KIND) /\ blocked) => ~sp
\* a refractory LIF neuron keeps its potential
LifHolds == [][(KIND = "lif" /\ n.rc > 0) => n'.pot = n.pot /\ ~sp']_vars
\* impacts of one step may come in any order (a blocking value is the same for all senders)
Commute == \A is \in IMPS : Len(is) <= 3 =>
    LET p == Pre(KIND, n) IN
    \A f \in Permutations(DOMAIN is) : Impacts(KIND, p, [i \in DOMAIN is |-> is[f[i]]]) = Impacts(KIND, p, is)
=============================================================================
