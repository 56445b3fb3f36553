------------------------------ MODULE PoolImpl ------------------------------
(* How the pool works: one mutex, one condition variable, a queue, a count   *)
(* of unfinished tasks and a usage state.  Every step between two lock       *)
(* operations is one transition; notifications wake any waiter; waiters may  *)
(* wake spuriously.  It implements Pool, never gets stuck and always ends.   *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Clients, Workers, Prog,       \* Prog[c]: a sequence of "P" (a task), "S" (a task that hands over another), "J"
          NotifyAll                     \* TRUE as implemented
VARIABLES pc, ip, lock, queue, count, usage, waiting, cur, kind, status, nxt, ret, home
iv == <<pc, ip, lock, queue, count, usage, waiting, cur, kind, status, nxt, ret, home>>
Threads == Clients \union Workers
Owner == CHOOSE c \in Clients : \A d \in Clients : c <= d       \* destroys the pool after the others have finished
None == 0
\* pc: "idle" (client between calls / worker at its loop), "lockpost", "lockjoin", "lockwork", "lockstop",
\*     "wait" (on the condition), "relock", "run", "lockend", "exited", "threads" (joins the workers), "gone"
\* home: where a thread continues after executing a task or waking: "join" | "work"
Init == /\ pc = [t \in Threads |-> IF t \in Workers THEN "lockwork" ELSE "idle"]
        /\ ip = [c \in Clients |-> 1] /\ lock = None /\ queue = <<>> /\ count = 0 /\ usage = "READY" /\ waiting = {}
        /\ cur = [t \in Threads |-> None] /\ kind = <<>> /\ status = <<>> /\ nxt = [t \in Threads |-> None]
        /\ ret = [t \in Threads |-> "none"] /\ home = [t \in Threads |-> IF t \in Workers THEN "work" ELSE "join"]
Put(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* ---- a client begins its next call
Call(c) == /\ pc[c] = "idle"
           /\ \/ /\ ip[c] <= Len(Prog[c]) /\ Prog[c][ip[c]] \in {"P", "S"}
                 /\ LET k == Cardinality(DOMAIN status) + 1 IN
                       /\ status' = Put(status, k, "calling") /\ kind' = Put(kind, k, Prog[c][ip[c]])
                       /\ nxt' = [nxt EXCEPT ![c] = k]
                 /\ Go(c, "lockpost") /\ ret' = [ret EXCEPT ![c] = "idle"] /\ UNCHANGED home
              \/ /\ ip[c] <= Len(Prog[c]) /\ Prog[c][ip[c]] = "J" /\ Go(c, "lockjoin") /\ ret' = [ret EXCEPT ![c] = "idle"]
                 /\ home' = [home EXCEPT ![c] = "join"] /\ UNCHANGED <<status, kind, nxt>>
              \/ /\ ip[c] > Len(Prog[c]) /\ c = Owner
                 /\ \A d \in Clients \ {c} : pc[d] = "idle" /\ ip[d] > Len(Prog[d])
                 /\ Go(c, "lockjoin") /\ ret' = [ret EXCEPT ![c] = "lockstop"] /\ home' = [home EXCEPT ![c] = "join"]
                 /\ UNCHANGED <<status, kind, nxt>>
           /\ ip' = [ip EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<lock, queue, count, usage, waiting, cur>>
\* ---- waking: any one waiter, or nobody if nobody waits
WakeOne == IF waiting = {} THEN waiting' = {} ELSE \E w \in waiting : waiting' = waiting \ {w}
\* push under the lock
LockPost(t) == /\ pc[t] = "lockpost" /\ lock = None
               /\ queue' = Append(queue, nxt[t]) /\ count' = count + 1 /\ usage' = "WORKING" /\ WakeOne
               /\ status' = [status EXCEPT ![nxt[t]] = "posted"]
               /\ Go(t, ret[t]) /\ nxt' = [nxt EXCEPT ![t] = None]
               /\ UNCHANGED <<ip, lock, cur, kind, ret, home>>
\* the loop of a waiting client or a worker, holding the lock
Loop(t) == \/ /\ pc[t] = "lockjoin" /\ lock = None
              /\ IF count = 0 THEN Go(t, "return") /\ UNCHANGED <<queue, cur, waiting, status>>
                 ELSE IF queue # <<>> THEN /\ cur' = [cur EXCEPT ![t] = Head(queue)] /\ queue' = Tail(queue) /\ Go(t, "run")
                                           /\ status' = [status EXCEPT ![Head(queue)] = "running"] /\ UNCHANGED waiting
                 ELSE waiting' = waiting \union {t} /\ Go(t, "wait") /\ UNCHANGED <<queue, cur, status>>
              /\ UNCHANGED <<ip, lock, count, usage, kind, nxt, ret, home>>
           \/ /\ pc[t] = "lockwork" /\ lock = None
              /\ IF usage = "FINISHED" THEN Go(t, "exited") /\ UNCHANGED <<queue, cur, waiting, status>>
                 ELSE IF queue # <<>> THEN /\ cur' = [cur EXCEPT ![t] = Head(queue)] /\ queue' = Tail(queue) /\ Go(t, "run")
                                           /\ status' = [status EXCEPT ![Head(queue)] = "running"] /\ UNCHANGED waiting
                 ELSE waiting' = waiting \union {t} /\ Go(t, "wait") /\ UNCHANGED <<queue, cur, status>>
              /\ UNCHANGED <<ip, lock, count, usage, kind, nxt, ret, home>>
Return(t) == pc[t] = "return" /\ Go(t, ret[t])
             /\ UNCHANGED <<ip, lock, queue, count, usage, waiting, cur, kind, status, nxt, ret, home>>
Wake(t) == pc[t] = "wait" /\ t \notin waiting /\ Go(t, IF home[t] = "work" THEN "lockwork" ELSE "lockjoin")
           /\ UNCHANGED <<ip, lock, queue, count, usage, waiting, cur, kind, status, nxt, ret, home>>
Spurious(t) == t \in waiting /\ waiting' = waiting \ {t}
               /\ UNCHANGED <<pc, ip, lock, queue, count, usage, cur, kind, status, nxt, ret, home>>
\* ---- executing a task outside the lock
RunTask(t) == /\ pc[t] = "run"
              /\ IF kind[cur[t]] = "S"
                 THEN LET k == Cardinality(DOMAIN status) + 1 IN
                      /\ status' = Put(status, k, "calling") /\ kind' = [Put(kind, k, "P") EXCEPT ![cur[t]] = "P"]
                      /\ nxt' = [nxt EXCEPT ![t] = k]
                      /\ Go(t, "taskpost")
                 ELSE /\ status' = [status EXCEPT ![cur[t]] = "done"] /\ Go(t, "lockend") /\ UNCHANGED <<kind, nxt>>
              /\ UNCHANGED <<ip, lock, queue, count, usage, waiting, cur, ret, home>>
TaskPost(t) == /\ pc[t] = "taskpost" /\ lock = None
               /\ queue' = Append(queue, nxt[t]) /\ count' = count + 1 /\ usage' = "WORKING" /\ WakeOne
               /\ status' = [status EXCEPT ![nxt[t]] = IF @ = "calling" THEN "posted" ELSE @]
               /\ Go(t, "run") /\ nxt' = [nxt EXCEPT ![t] = None]
               /\ UNCHANGED <<ip, lock, cur, kind, ret, home>>
LockEnd(t) == /\ pc[t] = "lockend" /\ lock = None
              /\ count' = count - 1
              /\ IF count = 1 THEN /\ usage' = (IF usage = "STOPPING" THEN "FINISHED" ELSE "READY")
                                   /\ IF NotifyAll THEN waiting' = {} ELSE WakeOne
                 ELSE UNCHANGED <<usage, waiting>>
              /\ cur' = [cur EXCEPT ![t] = None] /\ Go(t, IF home[t] = "work" THEN "lockwork" ELSE "lockjoin")
              /\ UNCHANGED <<ip, lock, queue, kind, status, nxt, ret, home>>
\* ---- the end
LockStop(t) == /\ pc[t] = "lockstop" /\ lock = None
               /\ usage' = (IF usage = "READY" THEN "FINISHED" ELSE "STOPPING") /\ waiting' = {} /\ Go(t, "threads")
               /\ UNCHANGED <<ip, lock, queue, count, cur, kind, status, nxt, ret, home>>
JoinThreads(t) == /\ pc[t] = "threads" /\ \A w \in Workers : pc[w] = "exited" /\ Go(t, "gone")
                  /\ UNCHANGED <<ip, lock, queue, count, usage, waiting, cur, kind, status, nxt, ret, home>>
Done == pc[Owner] = "gone" /\ UNCHANGED iv
Step(t) == (t \in Clients /\ Call(t)) \/ LockPost(t) \/ Loop(t) \/ Return(t) \/ Wake(t) \/ RunTask(t) \/ TaskPost(t) \/ LockEnd(t) \/ LockStop(t) \/ JoinThreads(t)
Next == (\E t \in Threads : Step(t) \/ Spurious(t)) \/ Done
Spec == Init /\ [][Next]_iv /\ \A t \in Threads : WF_iv(Step(t))
CountRight == count = Cardinality({k \in DOMAIN status : status[k] \in {"posted", "running"}}) + Cardinality({t \in Threads : pc[t] = "lockend"})
Ends == <>(pc[Owner] = "gone")
AllDone == pc[Owner] = "gone" => \A k \in DOMAIN status : status[k] = "done"

\* ---- refinement of Pool
Abs == INSTANCE Pool WITH
    st <- status,
    by <- [t \in {u \in Threads : pc[u] \in {"run", "taskpost"}} |-> cur[t]],
    hand <- [t \in {u \in Threads : pc[u] \in {"lockpost", "taskpost"}} |-> nxt[t]],
    call <- [t \in {u \in Clients : pc[u] \in {"lockjoin", "wait", "run", "taskpost", "lockend", "return", "lockstop", "threads"}}
             |-> IF pc[t] \in {"lockstop", "threads"} THEN "destroylin"
                 ELSE IF pc[t] = "return" THEN (IF ret[t] = "lockstop" THEN "destroylin" ELSE "joinlin")
                 ELSE IF ret[t] = "lockstop" THEN "destroy" ELSE "join"],
    alive <- pc[Owner] # "gone"
AbsStep == Abs!PInit /\ [][\E t \in Threads :
      \/ \E k \in 1..20 : Abs!Post(t, k) \/ Abs!Posted(t, k) \/ Abs!Start(t, k, t \in Workers) \/ Abs!End(t, k)
      \/ Abs!Join(t) \/ Abs!Lin(t) \/ Abs!Joined(t) \/ Abs!Destroy(t) \/ Abs!Destroyed(t)]_Abs!pv
=============================================================================
