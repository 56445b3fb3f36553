------------------------------- MODULE PoolMC -------------------------------
(* Every history of a pool with a few clients and tasks.                     *)
EXTENDS Pool, TLC, Sequences, Json
CONSTANTS Clients, Workers, MaxTasks, MaxCalls, GEN
VARIABLES need, ran, hist
mv == <<st, by, hand, call, alive, need, ran, hist>>
\* need: client -> what was handed over completely when it began to wait; ran: task -> executions
Init == PInit /\ need = <<>> /\ ran = [k \in 1..MaxTasks |-> 0] /\ hist = [c \in Clients |-> <<>>]
H(c, x) == hist' = [hist EXCEPT ![c] = Append(@, x)]
N == Cardinality(DOMAIN st)
Ready(c) == c \notin DOMAIN by /\ Len(hist[c]) < MaxCalls
Next ==
    \/ \E c \in Clients : Ready(c) /\ N < MaxTasks /\ Post(c, N + 1) /\ H(c, "P") /\ UNCHANGED <<need, ran>>
    \/ \E c \in Clients : c \in DOMAIN hand /\ Posted(c, hand[c]) /\ UNCHANGED <<need, ran, hist>>
    \/ \E t \in Clients \union Workers, k \in DOMAIN st : Start(t, k, t \in Workers) /\ ran' = [ran EXCEPT ![k] = @ + 1] /\ UNCHANGED <<need, hist>>
    \/ \E t \in DOMAIN by : N < MaxTasks /\ Post(t, N + 1) /\ UNCHANGED <<need, ran, hist>>
    \/ \E t \in DOMAIN by : t \in DOMAIN hand /\ Posted(t, hand[t]) /\ UNCHANGED <<need, ran, hist>>
    \/ \E t \in Clients \union Workers, k \in DOMAIN st : End(t, k) /\ UNCHANGED <<need, ran, hist>>
    \/ \E c \in Clients : Ready(c) /\ Join(c) /\ H(c, "J") /\ need' = Put(need, c, {k \in DOMAIN st : st[k] # "calling"}) /\ UNCHANGED <<ran>>
    \/ \E c \in Clients : Lin(c) /\ UNCHANGED <<need, ran, hist>>
    \/ \E c \in Clients : Joined(c) /\ UNCHANGED <<need, ran, hist>>
    \/ \E c \in Clients : (\A d \in Clients : hist[d] # <<>> \/ GEN) /\ Destroy(c) /\ need' = Put(need, c, DOMAIN st) /\ UNCHANGED <<ran, hist>>
    \/ \E c \in Clients : Destroyed(c) /\ UNCHANGED <<need, ran, hist>>
Spec == Init /\ [][Next]_mv /\ WF_mv(Next)
ExactlyOnce == \A k \in DOMAIN st : ran[k] = (IF st[k] \in {"running", "done"} THEN 1 ELSE 0)
JoinMeansDone == [][\A c \in Clients : (Waits(c) \/ (c \in DOMAIN call /\ call[c] \in {"joinlin", "destroylin"})) /\ c \notin DOMAIN call'
                       => \A k \in need[c] : st[k] = "done"]_mv
GoneMeansDone == ~alive => \A k \in DOMAIN st : st[k] = "done"
OneEach == \A k \in DOMAIN st : (st[k] = "running") <=> (\E t \in DOMAIN by : by[t] = k)
Emit == (GEN /\ ~alive) => PrintT("BEH " \o ToJson(hist))
=============================================================================
