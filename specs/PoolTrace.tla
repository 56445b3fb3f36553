------------------------------ MODULE PoolTrace ------------------------------
(* Recorded executions against Pool.  With hb the executions also list what  *)
(* the threads synchronise on, and the effects of a task have to be ordered  *)
(* before the return of a wait that covers it (and those of handing a task   *)
(* over before its start).                                                   *)
EXTENDS Pool, TLC, Sequences, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cl, hb, knows, obj, must
tv == <<st, by, hand, call, alive, l, cl, hb, knows, obj, must>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o
Line == l' = l + 1 /\ TLCSet(1, l)
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE {}
Same == UNCHANGED <<cl, hb, knows, obj, must>>
Learn(t, S) == knows' = (IF hb THEN Put(knows, t, Get(knows, t) \union S) ELSE knows)
P(k) == 2 * k      \* "task k was handed over"
D(k) == 2 * k + 1  \* "task k was executed"
Next ==
    \/ Is("new") /\ st' = <<>> /\ by' = <<>> /\ hand' = <<>> /\ call' = <<>> /\ alive' = TRUE /\ cl' = {E.t} /\ hb' = E.hb /\ knows' = <<>> /\ obj' = <<>> /\ must' = <<>> /\ Line
    \/ Is("client") /\ cl' = cl \union {E.t} /\ UNCHANGED <<st, by, hand, call, alive, hb, knows, obj, must>> /\ Line
    \/ Is("post") /\ Post(E.t, E.k) /\ Learn(E.t, {P(E.k)}) /\ UNCHANGED <<cl, hb, obj, must>> /\ Line
    \/ Is("posted") /\ Posted(E.t, E.k) /\ Same /\ Line
    \/ Is("start") /\ Start(E.t, E.k, E.t \notin cl) /\ TRUE = (hb => P(E.k) \in Get(knows, E.t)) /\ Same /\ Line
    \/ Is("end") /\ End(E.t, E.k) /\ Learn(E.t, {D(E.k)}) /\ UNCHANGED <<cl, hb, obj, must>> /\ Line
    \/ Is("join") /\ Join(E.t) /\ Same /\ Line
    \/ l <= Len(Trace) /\ E.op \in {"joined", "destroyed", "posted", "start"}
        /\ (\E t \in DOMAIN call : Lin(t) /\ must' = (IF hb THEN Put(must, t, {D(k) : k \in {x \in DOMAIN st : st[x] = "done"}}) ELSE must))
        /\ UNCHANGED <<l, cl, hb, knows, obj>>
    \/ Is("joined") /\ Joined(E.t) /\ TRUE = (hb => Get(must, E.t) \subseteq Get(knows, E.t)) /\ Same /\ Line
    \/ Is("destroy") /\ Destroy(E.t) /\ Same /\ Line
    \/ Is("destroyed") /\ E.k = 0 /\ Destroyed(E.t) /\ TRUE = (hb => Get(must, E.t) \subseteq Get(knows, E.t)) /\ Same /\ Line
    \/ Is("done") /\ ~alive /\ (\A k \in DOMAIN st : st[k] = "done") /\ UNCHANGED <<st, by, hand, call, alive>> /\ Same /\ Line
    \* synchronisation: acquire, release, release store, plain store
    \/ Is("A") /\ knows' = Put(knows, E.t, Get(knows, E.t) \union Get(obj, E.k)) /\ UNCHANGED <<st, by, hand, call, alive, cl, hb, obj, must>> /\ Line
    \/ Is("R") /\ obj' = Put(obj, E.k, Get(obj, E.k) \union Get(knows, E.t)) /\ UNCHANGED <<st, by, hand, call, alive, cl, hb, knows, must>> /\ Line
    \/ Is("S") /\ obj' = Put(obj, E.k, Get(knows, E.t)) /\ UNCHANGED <<st, by, hand, call, alive, cl, hb, knows, must>> /\ Line
    \/ Is("Z") /\ obj' = Put(obj, E.k, {}) /\ UNCHANGED <<st, by, hand, call, alive, cl, hb, knows, must>> /\ Line
TraceSpec == PInit /\ l = 1 /\ cl = {} /\ hb = FALSE /\ knows = <<>> /\ obj = <<>> /\ must = <<>> /\ TLCSet(1, 0) /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet(1)>>)
=============================================================================
