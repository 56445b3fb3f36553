----------------------------- MODULE ModelTrace -----------------------------
(* Is a recorded run of a real model a behaviour of ModelRun?                *)
EXTENDS ModelRun, Json, IOUtils
LG == INSTANCE Logs
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, s, w, mem      \* mem: the memories of the loggers
vars == <<l, m, s, w, mem>>
E == Trace[l]
Nothing == [pops |-> <<>>, projs |-> <<>>, inch |-> <<>>, outch |-> <<>>, gens |-> <<>>, handlers |-> <<>>, obs |-> <<>>, logs |-> <<>>, w |-> <<>>, wta |-> [k |-> 0, b |-> <<>>, pairs |-> <<>>]]
Init == l = 1 /\ m = Nothing /\ s = Fresh(Nothing) /\ w = <<>> /\ mem = <<>>

\* the dump of a network has the shape of the declaration
ShapeOK(n, d) ==
    /\ {d.pops[i].id : i \in DOMAIN d.pops} = {n.pops[i].id : i \in DOMAIN n.pops} /\ Len(d.pops) = Len(n.pops)
    /\ {d.projs[i].id : i \in DOMAIN d.projs} = {n.projs[i].id : i \in DOMAIN n.projs} /\ Len(d.projs) = Len(n.projs)
    /\ \A i \in DOMAIN d.pops : \E p \in DOMAIN n.pops : n.pops[p].id = d.pops[i].id /\ Len(n.pops[p].n) = Len(d.pops[i].n)
    /\ \A i \in DOMAIN d.projs : \E q \in DOMAIN n.projs :
          LET a == n.projs[q] b == d.projs[i] IN
          /\ a.id = b.id /\ a.pre = b.pre /\ a.post = b.post /\ a.locked = b.locked
          /\ [y \in DOMAIN b.syn |-> SubSeq(b.syn[y], 1, 4)] = [y \in DOMAIN a.syn |-> <<a.syn[y].s, a.syn[y].d, a.syn[y].dl, a.syn[y].ty>>]

May(n) == [n EXCEPT !.projs = [q \in DOMAIN @ |-> [locked |-> @[q].locked, id |-> @[q].id, kind |-> @[q].kind, pre |-> @[q].pre, post |-> @[q].post,
                                     src |-> @[q].src, only |-> @[q].only, syn |-> @[q].syn, may |-> ~@[q].locked, ever |-> ~@[q].locked]]]
Reset ==
    /\ E.ev = "reset"
    /\ Loadable(E.m)
    /\ m' = May(Wired(E.m)) /\ s' = Fresh(E.m)
    /\ E.w = E.m.w /\ w' = E.w
    /\ mem' = [i \in DOMAIN E.m.logs |-> LG!Zero(E.m.logs[i])]
    /\ E.log = [i \in DOMAIN E.m.logs |-> LG!Header(E.m.logs[i])]
    \* the backend has the network of the model, and gives it back
    /\ E.be = E.orig /\ E.copy = E.orig
    /\ TRUE = ShapeOK(E.m, E.be)

Refused ==
    /\ E.ev = "refused"
    /\ ~Loadable(E.m)
    /\ m' = Nothing /\ s' = Fresh(Nothing) /\ w' = <<>> /\ mem' = <<>>

\* Synapses whose weights may have been learned: what they deliver is compared without the weight.
\* After a copy of a network that no longer learns the weights are known again, but not those of impacts on their way.
Unknown(x) == \E q \in DOMAIN m.projs : /\ m.projs[q].id = x[1]
                                       /\ \/ m.projs[q].kind = "add"
                                          \/ m.projs[q].kind = "sr" /\ (m.projs[q].may \/ (m.projs[q].ever /\ m.projs[q].syn[x[2] + 1].dl > 1))
Bare(im) == [i \in DOMAIN im |-> IF Unknown(im[i]) THEN [im[i] EXCEPT ![3] = 0, ![4] = 0] ELSE im[i]]

\* one recorded step; acc = [ok, s, mem]
One(acc, e) ==
    IF ~acc.ok THEN acc ELSE
    LET P == {m.pops[p].id : p \in DOMAIN m.pops} \cup WtaIds(m)
        r == TLCEval(RunStep(m, acc.s, w, From(e.bus, P)))
        impacts(who) == SelectSeq(e.im, LAMBDA x : x[1] \in who)
        ok == /\ e.t = acc.s.t
              /\ \A i \in DOMAIN e.ask : e.ask[i] = 1
              /\ \A i, j \in DOMAIN e.bus : (i # j /\ e.bus[i][1] = e.bus[j][1]) => e.bus[i][1] \notin P
              /\ BagOf(e.bus) = BagOf(r.bus)
              /\ \A i \in DOMAIN e.bus : e.bus[i][2] = e.t /\ e.bus[i][3] # <<>>
              /\ WtaOK(m, acc.s.bus, e.bus)
              /\ BagOf(Bare(e.im)) = BagOf(Bare(r.now))
              /\ \A h \in DOMAIN m.handlers : BagOf(e.h[h]) = BagOf(From(r.bus, ToSet(m.handlers[h].from)))
              /\ \A o \in DOMAIN m.obs : BagOf(e.o[o]) = IF m.obs[o].kind = 0 THEN BagOf(From(r.bus, ToSet(m.obs[o].from)))
                                                        ELSE BagOf(impacts(ToSet(m.obs[o].from)))
              /\ \A g \in DOMAIN m.logs : LG!Writes(m.logs[g], acc.mem[g], r.bus, r.t, e.log[g], e.tok[g], e.rows[g])
    IN [ok |-> ok, s |-> IF ok THEN r ELSE acc.s,
        mem |-> IF ok THEN [g \in DOMAIN m.logs |-> LG!Told(m.logs[g], acc.mem[g], r.bus, r.t)] ELSE acc.mem]

\* steps a run has to execute: a stop in the condition of step k excludes that step, one made during step k does not
Steps(n, who, k) == CASE who = "none" -> n
                      [] who = "p" -> IF k <= n THEN k - 1 ELSE n
                      [] OTHER -> IF k <= n THEN k ELSE n
Run ==
    /\ E.ev = "run"
    /\ E.from = s.t /\ ~E.running
    /\ Len(E.steps) = E.to - E.from
    /\ E.to = E.from + Steps(E.n, E.stop, E.k)
    /\ LET r == TLCEval(FoldLeft(One, [ok |-> TRUE, s |-> s, mem |-> mem], E.steps))
       IN r.ok /\ s' = r.s /\ mem' = r.mem
    /\ UNCHANGED <<m, w>>

Read ==
    /\ E.ev = "read"
    /\ LET mine == Within(s.buf[E.ch], E.a, E.b) IN
       /\ BagOf(E.r) = BagOf(mine)
       /\ TRUE = InOrder(E.r)
    /\ s' = [s EXCEPT !.buf[E.ch] = Outside(@, E.a, E.b)]
    /\ UNCHANGED <<m, w, mem>>
Update ==
    /\ E.ev = "update"
    /\ BagOf(E.r) = BagOf(s.buf[E.ch]) /\ TRUE = InOrder(E.r)
    /\ UNCHANGED <<m, s, w, mem>>

Copy ==
    /\ E.ev = "copy"
    /\ E.copy = E.be
    /\ TRUE = ShapeOK(m, E.be)
    /\ w' = E.w
    /\ TRUE = \A q \in DOMAIN m.projs : (m.projs[q].kind = "delta" \/ (m.projs[q].kind = "sr" /\ ~m.projs[q].may)) => E.w[q] = w[q]
    /\ m' = [m EXCEPT !.projs = [q \in DOMAIN @ |-> [@[q] EXCEPT !.may = @ /\ ~m.projs[q].locked]]]
    /\ UNCHANGED <<s, mem>>
Lock ==
    /\ E.ev \in {"lock", "unlock"}
    /\ m' = [m EXCEPT !.projs = [q \in DOMAIN @ |-> [@[q] EXCEPT !.locked = (E.ev = "lock"), !.may = @ \/ E.ev = "unlock", !.ever = @ \/ E.ev = "unlock"]]]
    /\ UNCHANGED <<s, w, mem>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Refused \/ Run \/ Read \/ Update \/ Copy \/ Lock)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
