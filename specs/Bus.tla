-------------------------------- MODULE Bus --------------------------------
(* The message bus and the subscriptions of its endpoints, at the level a     *)
(* user of the library can observe.  One action per public call.              *)
(*                                                                            *)
(* A message is [id, ty, snd, org, b]: unique id, message type, sender UID,   *)
(* the endpoint it was sent through, payload.                                 *)
(*   outbox[e]  messages sent through e and not yet routed                    *)
(*   inbox[e]   routed to e, not yet received: [m, must] where must is the    *)
(*              set of subscription keys that named the sender when the       *)
(*              message was routed and did so ever since.  Those subscriptions*)
(*              must get the message; a subscription that names the sender    *)
(*              only when the message is received may get it (the CPU bus     *)
(*              filters by sender while routing, the ZMQ bus does not).       *)
(*   subs[e]    [key -> [senders, store]], key = <<type, receiver>>           *)
(*   limbo      ids of messages whose endpoint was destroyed before routing:  *)
(*              nothing is promised about them                                *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES outbox, inbox, subs, limbo, origins
busvars == <<outbox, inbox, subs, limbo, origins>>

Eps == DOMAIN subs
EmptyF == [x \in {} |-> x]

BusInit == /\ outbox = EmptyF /\ inbox = EmptyF /\ subs = EmptyF
           /\ limbo = {} /\ origins = {}

CreateEp(e) == /\ e \notin Eps
               /\ outbox' = (e :> <<>>) @@ outbox
               /\ inbox' = (e :> <<>>) @@ inbox
               /\ subs' = (e :> EmptyF) @@ subs
               /\ origins' = origins \union {e}
               /\ UNCHANGED limbo

DestroyEp(e) == /\ e \in Eps
                /\ limbo' = limbo \union {m.id : m \in Range(outbox[e])}
                /\ outbox' = Restrict(outbox, Eps \ {e})
                /\ inbox' = Restrict(inbox, Eps \ {e})
                /\ subs' = Restrict(subs, Eps \ {e})
                /\ UNCHANGED origins

MoveEp(e) == e \in Eps /\ UNCHANGED busvars

SetSubs(e, f) == subs' = [subs EXCEPT ![e] = f]

Subscribe(e, key, snd) ==
    /\ e \in Eps
    /\ SetSubs(e, IF key \in DOMAIN subs[e]
                  THEN [subs[e] EXCEPT ![key].senders = @ \union snd]
                  ELSE (key :> [senders |-> snd, store |-> <<>>]) @@ subs[e])
    /\ UNCHANGED <<outbox, inbox, limbo, origins>>

\* Forget the obligation of pending messages towards keys for which P(key, sender) holds.
Release(e, P(_, _)) ==
    inbox' = [inbox EXCEPT ![e] =
                 [i \in DOMAIN @ |-> [@[i] EXCEPT !.must = {k \in @ : ~P(k, inbox[e][i].m.snd)}]]]

Unsubscribe(e, key) ==
    /\ e \in Eps
    /\ SetSubs(e, Restrict(subs[e], DOMAIN subs[e] \ {key}))
    /\ Release(e, LAMBDA k, s : k = key)
    /\ UNCHANGED <<outbox, limbo, origins>>

UnsubscribeResult(e, key) == key \in DOMAIN subs[e]

RemoveReceiver(e, r) ==
    /\ e \in Eps
    /\ SetSubs(e, Restrict(subs[e], {k \in DOMAIN subs[e] : k[2] # r}))
    /\ Release(e, LAMBDA k, s : k[2] = r)
    /\ UNCHANGED <<outbox, limbo, origins>>

\* Subscription object obtained by subscribing with no senders, then edited.
Touched(e, key) == IF key \in DOMAIN subs[e] THEN subs[e]
                   ELSE (key :> [senders |-> {}, store |-> <<>>]) @@ subs[e]

AddSenders(e, key, snd) ==
    /\ e \in Eps
    /\ SetSubs(e, [Touched(e, key) EXCEPT ![key].senders = @ \union snd])
    /\ UNCHANGED <<outbox, inbox, limbo, origins>>

RemoveSenders(e, key, snd) ==
    /\ e \in Eps
    /\ SetSubs(e, [Touched(e, key) EXCEPT ![key].senders = @ \ snd])
    /\ Release(e, LAMBDA k, s : k = key /\ s \in snd)
    /\ UNCHANGED <<outbox, limbo, origins>>

AddedCount(e, key, snd) == Cardinality(snd \ Touched(e, key)[key].senders)
RemovedCount(e, key, snd) == Cardinality(snd \intersect Touched(e, key)[key].senders)

Send(e, m) == /\ e \in Eps
              /\ outbox' = [outbox EXCEPT ![e] = Append(@, m)]
              /\ UNCHANGED <<inbox, subs, limbo, origins>>

Pending == UNION {Range(outbox[e]) : e \in Eps}

Names(sub, key, m) == key[1] = m.ty /\ m.snd \in sub.senders
Musts(e, m) == {k \in DOMAIN subs[e] : Names(subs[e][k], k, m)}

\* Routing hands every pending message to every endpoint; messages of one endpoint keep their order.
\* The relative order of messages of different endpoints is not promised; any fixed order serves.
RouteSeq == FlattenSeq([i \in 1 .. Cardinality(Eps) |-> outbox[SetToSeq(Eps)[i]]])
Route == /\ inbox' = [e \in Eps |-> inbox[e] \o
                        [i \in DOMAIN RouteSeq |-> [m |-> RouteSeq[i], must |-> Musts(e, RouteSeq[i])]]]
         /\ outbox' = [e \in Eps |-> <<>>]
         /\ UNCHANGED <<subs, limbo, origins>>

\* D: optional deliveries that took place, a set of <<key, id>>.
Delivered(e, k, ent, D) == /\ Names(subs[e][k], k, ent.m)
                           /\ (k \in ent.must \/ <<k, ent.m.id>> \in D)
DeliverSeq(e, k, q, D) == LET s == SelectSeq(q, LAMBDA ent : Delivered(e, k, ent, D))
                          IN [i \in DOMAIN s |-> s[i].m]

ReceiveAll(e, D) ==
    /\ e \in Eps
    /\ SetSubs(e, [k \in DOMAIN subs[e] |->
                      [subs[e][k] EXCEPT !.store = @ \o DeliverSeq(e, k, inbox[e], D)]])
    /\ inbox' = [inbox EXCEPT ![e] = <<>>]
    /\ UNCHANGED <<outbox, limbo, origins>>

\* A single receive takes the first message of some origin, after possibly skipping messages nobody is owed.
ReceiveOne(e, i, D) ==
    /\ e \in Eps /\ i \in DOMAIN inbox[e]
    /\ LET ent == inbox[e][i]
           earlier == {j \in 1 .. (i - 1) : inbox[e][j].m.org = ent.m.org}
       IN /\ \A j \in earlier : inbox[e][j].must = {}
          /\ SetSubs(e, [k \in DOMAIN subs[e] |->
                            [subs[e][k] EXCEPT !.store = @ \o DeliverSeq(e, k, <<ent>>, D)]])
          /\ inbox' = [inbox EXCEPT ![e] =
                          LET keep == {j \in DOMAIN @ : j # i /\ j \notin earlier}
                          IN [n \in 1 .. Cardinality(keep) |->
                                @[CHOOSE j \in keep : Cardinality({x \in keep : x < j}) = n - 1]]]
    /\ UNCHANGED <<outbox, limbo, origins>>

ReceiveNothing(e) ==
    /\ e \in Eps
    /\ \A j \in DOMAIN inbox[e] : inbox[e][j].must = {}
    /\ inbox' = [inbox EXCEPT ![e] = <<>>]
    /\ UNCHANGED <<outbox, subs, limbo, origins>>

Unload(e, key) ==
    /\ e \in Eps
    /\ SetSubs(e, IF key \in DOMAIN subs[e] THEN [subs[e] EXCEPT ![key].store = <<>>] ELSE subs[e])
    /\ UNCHANGED <<outbox, inbox, limbo, origins>>

UnloadResult(e, key) == IF key \in DOMAIN subs[e] THEN subs[e][key].store ELSE <<>>

\* Two message sequences agree if they hold the same messages, in the same order per origin.
SameUpToInterleaving(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A o \in {m.org : m \in Range(a)} \union {m.org : m \in Range(b)} :
          SelectSeq(a, LAMBDA m : m.org = o) = SelectSeq(b, LAMBDA m : m.org = o)

---------------------------------------------------------------------------
\* Invariants of the design
NoDuplicates == \A e \in Eps : \A k \in DOMAIN subs[e] :
    \A i, j \in DOMAIN subs[e][k].store : i # j => subs[e][k].store[i].id # subs[e][k].store[j].id
TypeMatches == \A e \in Eps : \A k \in DOMAIN subs[e] :
    \A i \in DOMAIN subs[e][k].store : subs[e][k].store[i].ty = k[1]
\* ids grow with time, so per origin every store is in send order
InSendOrder == \A e \in Eps : \A k \in DOMAIN subs[e] :
    \A i, j \in DOMAIN subs[e][k].store :
        (i < j /\ subs[e][k].store[i].org = subs[e][k].store[j].org)
            => subs[e][k].store[i].id < subs[e][k].store[j].id
OwedIsNamed == \A e \in Eps : \A i \in DOMAIN inbox[e] : \A k \in inbox[e][i].must :
    k \in DOMAIN subs[e] /\ Names(subs[e][k], k, inbox[e][i].m)
=============================================================================
