------------------------------ MODULE EngineMT ------------------------------
(* The multi-threaded backend: the phases of a step are cut into tasks over  *)
(* parts of populations and projections, taken by workers in any order and   *)
(* interleaved, with a barrier after each phase; shared results (spikes of a *)
(* population, queue of scheduled impacts) are appended to under a lock.     *)
(* Every schedule gives what one step of the sequential engine gives.        *)
EXTENDS Engine, Json, IOUtils
CONSTANTS MAXT, POPPART, PROJPART, WORKERS
NETS == ndJsonDeserialize(IOEnv.NETS)
VARIABLES k, t, phase, todo, work, st, fired, pend, wire, ref, refwire, refpend, lock
\* phase: "pre" "impact" "post" "train" "proj"; todo: tasks not taken; work[x]: task of worker x with its local result
vars == <<k, t, phase, todo, work, st, fired, pend, wire, ref, refwire, refpend, lock>>
net == NETS[k]
w == NETS[k].w
W == 1..WORKERS
Idle == [task |-> <<>>, done |-> FALSE, res |-> <<>>]

Parts(n, size) == {<<a, FMin(a + size - 1, n)>> : a \in {x \in 1..n : (x - 1) % size = 0}}
PopTasks == UNION {{<<p, r[1], r[2]>> : r \in Parts(Len(st[p]), POPPART)} : p \in DOMAIN net.pops}
WholePops == {<<p, 1, Len(st[p])>> : p \in DOMAIN net.pops}
ProjTasks == UNION {{<<q, r[1], r[2]>> : r \in Parts(Len(net.projs[q].syn), PROJPART)} : q \in DOMAIN net.projs}
In == [i \in DOMAIN net.alph[(t % Len(net.alph)) + 1] |->
        <<net.alph[(t % Len(net.alph)) + 1][i][1], t, net.alph[(t % Len(net.alph)) + 1][i][2]>>]
Msgs(f) == In \o Flat([p \in DOMAIN net.pops |-> IF f[p] = <<>> THEN <<>> ELSE <<<<net.pops[p].id, t, f[p]>>>>])

Init == /\ k \in DOMAIN NETS /\ t = 0 /\ phase = "pre"
        /\ st = [p \in DOMAIN NETS[k].pops |-> NETS[k].pops[p].n]
        /\ todo = UNION {{<<p, r[1], r[2]>> : r \in Parts(Len(NETS[k].pops[p].n), POPPART)} : p \in DOMAIN NETS[k].pops}
        /\ work = [x \in W |-> Idle] /\ fired = [p \in DOMAIN NETS[k].pops |-> <<>>] /\ pend = <<>> /\ wire = <<>>
        /\ ref = [p \in DOMAIN NETS[k].pops |-> NETS[k].pops[p].n] /\ refwire = <<>> /\ refpend = <<>> /\ lock = 0

\* workers are alike: only the lowest idle one takes a task
Take(x) == /\ work[x] = Idle /\ \A y \in W : y < x => work[y] # Idle
           /\ \E k_ \in todo :
                 /\ todo' = todo \ {k_}
                 /\ work' = [work EXCEPT ![x] = [task |-> k_, done |-> FALSE, res |-> <<>>]]
           /\ UNCHANGED <<k, t, phase, st, fired, pend, wire, ref, refwire, refpend, lock>>

\* the work on the worker's own part (no other task of the phase touches it); post and proj keep a local result
Compute(x) ==
    /\ work[x] # Idle /\ ~work[x].done
    /\ LET p == work[x].task[1]
           a == work[x].task[2]
           b == work[x].task[3]
           kd == net.pops[p].kind
       IN CASE phase = "pre" ->
                 st' = [st EXCEPT ![p] = [j \in DOMAIN @ |-> IF a <= j /\ j <= b THEN Pre(kd, @[j]) ELSE @[j]]]
                 /\ work' = [work EXCEPT ![x] = Idle]
            [] phase = "impact" ->
                 st' = [st EXCEPT ![p] = [j \in DOMAIN @ |-> Impacts(kd, @[j], On(To(wire, net.pops[p].id), j - 1))]]
                 /\ work' = [work EXCEPT ![x] = Idle]
            [] phase = "post" ->
                 st' = [st EXCEPT ![p] = [j \in DOMAIN @ |-> IF a <= j /\ j <= b THEN Post(kd, @[j]).n ELSE @[j]]]
                 /\ work' = [work EXCEPT ![x].done = TRUE,
                             ![x].res = SelectSeq([i \in 1..(b - a + 1) |-> a + i - 2], LAMBDA j : Post(kd, st[p][j + 1]).sp)]
            [] phase = "train" ->
                 st' = [st EXCEPT ![p] = [j \in DOMAIN @ |->
                          IF IsSr(kd) /\ (j - 1) \in ToSet(fired[p]) /\ ~PlasticInto(net, net.pops[p].id)
                          THEN [@[j] EXCEPT !.add = 0] ELSE @[j]]]
                 /\ work' = [work EXCEPT ![x] = Idle]
            [] phase = "proj" ->
                 st' = st
                 /\ work' = [work EXCEPT ![x].done = TRUE,
                             ![x].res = Crossing([net.projs[p] EXCEPT !.syn =
                                 [i \in DOMAIN @ |-> IF a <= i /\ i <= b THEN @[i] ELSE [@[i] EXCEPT !.s = -1]]], w[p], Msgs(fired), t)]
    /\ UNCHANGED <<k, t, phase, todo, fired, pend, wire, ref, refwire, refpend, lock>>

Lock(x) == /\ work[x].done /\ lock = 0 /\ lock' = x /\ UNCHANGED <<k, t, phase, todo, work, st, fired, pend, wire, ref, refwire, refpend>>
Commit(x) ==
    /\ lock = x /\ work[x].done
    /\ IF phase = "post" THEN fired' = [fired EXCEPT ![work[x].task[1]] = @ \o work[x].res] /\ pend' = pend
       ELSE pend' = pend \o work[x].res /\ fired' = fired
    /\ work' = [work EXCEPT ![x] = Idle] /\ lock' = 0
    /\ UNCHANGED <<k, t, phase, todo, st, wire, ref, refwire, refpend>>

NextPhase == [pre |-> "impact", impact |-> "post", post |-> "train", train |-> "proj", proj |-> "pre"]
Tasks(ph) == CASE ph \in {"pre", "post"} -> PopTasks [] ph \in {"impact", "train"} -> WholePops [] OTHER -> ProjTasks
Barrier ==
    /\ todo = {} /\ \A x \in W : work[x] = Idle
    /\ phase' = NextPhase[phase] /\ todo' = Tasks(phase') /\ UNCHANGED <<k, work, lock, st>>
    /\ IF phase = "proj"
       THEN /\ wire' = [i \in DOMAIN SelectSeq(pend, LAMBDA y : y.due = t) |-> SelectSeq(pend, LAMBDA y : y.due = t)[i].im]
            /\ pend' = SelectSeq(pend, LAMBDA y : y.due # t)
            /\ fired' = [p \in DOMAIN fired |-> <<>>]
            /\ t' = t + 1
            \* the sequential engine takes its step here
            /\ LET r == PopStep(net, ref, refwire)
                   f == [p \in DOMAIN ref |-> SelectSeq([j \in DOMAIN ref[p] |-> j - 1], LAMBDA j : r[p][j + 1].sp)]
                   s == refpend \o Flat([q \in DOMAIN net.projs |-> Crossing(net.projs[q], w[q], Msgs(f), t)])
               IN /\ ref' = [p \in DOMAIN ref |-> [j \in DOMAIN ref[p] |-> r[p][j].n]]
                  /\ refwire' = [i \in DOMAIN SelectSeq(s, LAMBDA y : y.due = t) |-> SelectSeq(s, LAMBDA y : y.due = t)[i].im]
                  /\ refpend' = SelectSeq(s, LAMBDA y : y.due # t)
       ELSE UNCHANGED <<wire, pend, fired, t, ref, refwire, refpend>>
Next == (t < MAXT /\ \E x \in W : Take(x) \/ Compute(x) \/ Lock(x) \/ Commit(x)) \/ (t < MAXT /\ Barrier)
Spec == Init /\ [][Next]_vars

Boundary == phase = "pre" /\ \A x \in W : work[x] = Idle /\ todo = PopTasks
SameAsSequential == Boundary => st = ref /\ BagOf(wire) = BagOf(refwire) /\ BagOf(pend) = BagOf(refpend)
OneHolder == lock # 0 => work[lock].done
=============================================================================
