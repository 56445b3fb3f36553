-------------------------------- MODULE BusMT --------------------------------
(* A bus used by several threads at once.  Any thread sends through any       *)
(* endpoint and routes; one thread at a time receives through an endpoint.    *)
(* A call takes time: it begins and ends, and calls of different threads      *)
(* overlap.  What is promised, in terms of what had ended when a call began:  *)
(* a message whose send had ended when a routing call began, which had ended  *)
(* when a complete receive began, has been received when that ends; messages  *)
(* of one endpoint are not received in an order other than they were sent in. *)
(*   subs[e]  [key -> senders], key = <<type, receiver>>; fixed                *)
(*   msgs     id -> [ty, snd, e, b, before: ids sent through e before]         *)
(*   sent, routed : ids of messages whose sending / routing has ended          *)
(*   calls    thread -> [op, e, k: id (send), S: ids the call owes]            *)
(*   store    [e -> [key -> ids received so far, in order]]                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES subs, msgs, sent, routed, calls, store
mtvars == <<subs, msgs, sent, routed, calls, store>>

Elems(s) == {s[i] : i \in DOMAIN s}
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Named(e, k, m) == m.ty = k[1] /\ m.snd \in subs[e][k]

MTInit(s) == /\ subs = s /\ msgs = <<>> /\ sent = {} /\ routed = {} /\ calls = <<>>
             /\ store = [e \in DOMAIN s |-> [k \in DOMAIN s[e] |-> <<>>]]

Begin(t, c) == t \notin DOMAIN calls /\ calls' = (t :> c) @@ calls
SendBegin(t, e, id, m) ==
    /\ id \notin DOMAIN msgs /\ e \in DOMAIN subs
    /\ Begin(t, [op |-> "send", e |-> e, k |-> id, S |-> {}])
    /\ msgs' = (id :> [ty |-> m.ty, snd |-> m.snd, b |-> m.b, e |-> e, before |-> {x \in sent : msgs[x].e = e}]) @@ msgs
    /\ UNCHANGED <<subs, sent, routed, store>>
SendEnd(t) == /\ t \in DOMAIN calls /\ calls[t].op = "send"
              /\ sent' = sent \union {calls[t].k} /\ calls' = Without(calls, t)
              /\ UNCHANGED <<subs, msgs, routed, store>>
RouteBegin(t) == /\ Begin(t, [op |-> "route", e |-> "", k |-> 0, S |-> sent])
                 /\ UNCHANGED <<subs, msgs, sent, routed, store>>
RouteEnd(t) == /\ t \in DOMAIN calls /\ calls[t].op = "route"
               /\ routed' = routed \union calls[t].S /\ calls' = Without(calls, t)
               /\ UNCHANGED <<subs, msgs, sent, store>>
RecvBegin(t, e) == /\ e \in DOMAIN subs /\ \A u \in DOMAIN calls : ~(calls[u].op = "recv" /\ calls[u].e = e)
                   /\ Begin(t, [op |-> "recv", e |-> e, k |-> 0, S |-> routed])
                   /\ UNCHANGED <<subs, msgs, sent, routed, store>>
\* got[k]: ids in the order in which they were stored for k
RecvOK(t, got) ==
    LET e == calls[t].e IN
    /\ DOMAIN got = DOMAIN subs[e]
    /\ \A k \in DOMAIN got :
         LET all == store[e][k] \o got[k] IN
         /\ \A i \in DOMAIN got[k] : got[k][i] \in DOMAIN msgs /\ Named(e, k, msgs[got[k][i]])
         /\ \A i, j \in DOMAIN all : i < j => (all[i] # all[j] /\ all[j] \notin msgs[all[i]].before)
         /\ \A x \in calls[t].S : Named(e, k, msgs[x]) => x \in Elems(all)
RecvEffect(t, got) ==
    /\ store' = [store EXCEPT ![calls[t].e] = [k \in DOMAIN @ |-> @[k] \o got[k]]]
    /\ calls' = Without(calls, t)
    /\ UNCHANGED <<subs, msgs, sent, routed>>
RecvEnd(t, got) == t \in DOMAIN calls /\ calls[t].op = "recv" /\ RecvOK(t, got) /\ RecvEffect(t, got)
=============================================================================
