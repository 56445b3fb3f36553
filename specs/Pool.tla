-------------------------------- MODULE Pool --------------------------------
(* A pool of workers as its users see it.  A task is handed over by a call   *)
(* that returns without waiting for it, is executed exactly once by a worker *)
(* or by a thread that waits for the pool, and waiting returns only if at    *)
(* some instant after it began nothing handed over was unfinished.           *)
EXTENDS Naturals, FiniteSets
VARIABLES
    st,        \* task -> "calling" (being handed over) | "posted" | "running" | "done"
    by,        \* thread -> the task it executes
    hand,      \* thread -> the task it is handing over
    call,      \* client -> "join" | "joinlin" | "destroy" | "destroylin"
    alive      \* FALSE once the pool is destroyed
pv == <<st, by, hand, call, alive>>
PInit == st = <<>> /\ by = <<>> /\ hand = <<>> /\ call = <<>> /\ alive = TRUE
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
Free(t) == t \notin DOMAIN hand /\ TRUE = (t \in DOMAIN by \/ (t \notin DOMAIN call /\ \A c \in DOMAIN call : call[c] \notin {"destroy", "destroylin"}))
\* t may make a call: it is not in one and, unless it executes a task, nobody is destroying the pool
Outstanding == {k \in DOMAIN st : st[k] \in {"posted", "running"}}

\* t hands over task k; t may be a client or a thread that executes a task
Post(t, k) == alive /\ Free(t) /\ k \notin DOMAIN st
              /\ st' = Put(st, k, "calling") /\ hand' = Put(hand, t, k) /\ UNCHANGED <<by, call, alive>>
Posted(t, k) == t \in DOMAIN hand /\ hand[t] = k
                /\ st' = [st EXCEPT ![k] = IF @ = "calling" THEN "posted" ELSE @]
                /\ hand' = Drop(hand, t) /\ UNCHANGED <<by, call, alive>>
Waits(t) == t \in DOMAIN call /\ call[t] \in {"join", "destroy"}
Start(t, k, worker) == k \in DOMAIN st /\ st[k] \in {"calling", "posted"} /\ t \notin DOMAIN by /\ t \notin DOMAIN hand
                       /\ TRUE = (worker \/ Waits(t)) /\ alive
                       /\ st' = [st EXCEPT ![k] = "running"] /\ by' = Put(by, t, k) /\ UNCHANGED <<hand, call, alive>>
End(t, k) == t \in DOMAIN by /\ by[t] = k /\ t \notin DOMAIN hand
             /\ st' = [st EXCEPT ![k] = "done"] /\ by' = Drop(by, t) /\ UNCHANGED <<hand, call, alive>>
Join(t) == alive /\ Free(t) /\ t \notin DOMAIN by /\ call' = Put(call, t, "join") /\ UNCHANGED <<st, by, hand, alive>>
\* the instant at which nothing is outstanding
Lin(t) == Waits(t) /\ t \notin DOMAIN by /\ Outstanding = {}
          /\ call' = [call EXCEPT ![t] = IF @ = "join" THEN "joinlin" ELSE "destroylin"] /\ UNCHANGED <<st, by, hand, alive>>
Joined(t) == t \in DOMAIN call /\ call[t] = "joinlin" /\ call' = Drop(call, t) /\ UNCHANGED <<st, by, hand, alive>>
Destroy(t) == alive /\ DOMAIN call = {} /\ DOMAIN hand \subseteq DOMAIN by /\ Free(t) /\ t \notin DOMAIN by /\ call' = Put(call, t, "destroy") /\ UNCHANGED <<st, by, hand, alive>>
Destroyed(t) == t \in DOMAIN call /\ call[t] = "destroylin" /\ call' = Drop(call, t) /\ alive' = FALSE /\ UNCHANGED <<st, by, hand>>
                /\ DOMAIN by = {}
=============================================================================
