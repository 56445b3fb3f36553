------------------------------- MODULE BusCPU -------------------------------
(* The algorithm of the CPU bus: per endpoint a send vector and a receive     *)
(* queue, a routing queue that is filled from all send vectors and then       *)
(* emptied message by message, and a sender filter per endpoint.  Checked to  *)
(* refine Bus (fixed number of endpoints, no unsubscription).                 *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS EpNames, Types, Rcvs, Snds, MaxMsgs

VARIABLES sendv,    \* [e -> Seq(msg)]
          recvv,    \* [e -> Seq(msg)]   the front is received first
          routing,  \* Seq(msg)          the front is routed first
          inroute,  \* a routing round is in progress
          filter,   \* [e -> set of senders]
          subm,     \* [e -> [key -> [senders, store]]]
          n,
          absout, absin  \* auxiliary: outbox and inbox of the abstract bus
vars == <<sendv, recvv, routing, inroute, filter, subm, n, absout, absin>>

Keys == Types \X Rcvs
EpSeq == SetToSeq(EpNames)
NamesM(sub, key, m) == key[1] = m.ty /\ m.snd \in sub.senders
All(q) == FlattenSeq([i \in DOMAIN EpSeq |-> q[EpSeq[i]]])

Init == /\ sendv = [e \in EpNames |-> <<>>] /\ recvv = [e \in EpNames |-> <<>>]
        /\ routing = <<>> /\ inroute = FALSE /\ filter = [e \in EpNames |-> {}]
        /\ subm = [e \in EpNames |-> [x \in {} |-> x]] /\ n = 0
        /\ absout = sendv /\ absin = [e \in EpNames |-> <<>>]

Sub(e, k, s) == /\ ~inroute
                /\ filter' = [filter EXCEPT ![e] = @ \union {s}]
                /\ subm' = [subm EXCEPT ![e] = IF k \in DOMAIN @ THEN [@ EXCEPT ![k].senders = @ \union {s}]
                                               ELSE (k :> [senders |-> {s}, store |-> <<>>]) @@ @]
                /\ UNCHANGED <<sendv, recvv, routing, inroute, n, absout, absin>>

Snd(e, t, s) == LET m == [id |-> n + 1, ty |-> t, snd |-> s, org |-> e, b |-> ""] IN
                /\ ~inroute /\ n < MaxMsgs /\ n' = n + 1
                /\ sendv' = [sendv EXCEPT ![e] = Append(@, m)]
                /\ absout' = [absout EXCEPT ![e] = Append(@, m)]
                /\ UNCHANGED <<recvv, routing, inroute, filter, subm, absin>>

\* update(): collect everything sent
Update == /\ ~inroute /\ \E e \in EpNames : sendv[e] # <<>>
          /\ routing' = routing \o All(sendv)
          /\ sendv' = [e \in EpNames |-> <<>>]
          /\ inroute' = TRUE
          /\ UNCHANGED <<recvv, filter, subm, n, absout, absin>>

\* step(): route one message
StepOne == /\ inroute /\ routing # <<>>
           /\ LET m == Head(routing) IN
              recvv' = [e \in EpNames |-> IF m.snd \in filter[e] THEN Append(recvv[e], m) ELSE recvv[e]]
           /\ routing' = Tail(routing)
           /\ inroute' = (Len(routing) > 1)
           /\ IF Len(routing) > 1 THEN UNCHANGED <<absout, absin>>
              ELSE /\ absout' = [e \in EpNames |-> <<>>]
                   /\ absin' = [e \in EpNames |-> absin[e] \o
                        [i \in DOMAIN All(absout) |->
                           [m |-> All(absout)[i],
                            must |-> {k \in DOMAIN subm[e] : NamesM(subm[e][k], k, All(absout)[i])}]]]
           /\ UNCHANGED <<sendv, filter, subm, n>>

RecvAll(e) == /\ ~inroute /\ absin[e] # <<>>
              /\ subm' = [subm EXCEPT ![e] = [k \in DOMAIN @ |->
                            [@[k] EXCEPT !.store = @ \o SelectSeq(recvv[e], LAMBDA m : NamesM(subm[e][k], k, m))]]]
              /\ recvv' = [recvv EXCEPT ![e] = <<>>]
              /\ absin' = [absin EXCEPT ![e] = <<>>]
              /\ UNCHANGED <<sendv, routing, inroute, filter, n, absout>>

Next == \/ \E e \in EpNames, k \in Keys, s \in Snds : Sub(e, k, s)
        \/ \E e \in EpNames, t \in Types, s \in Snds : Snd(e, t, s)
        \/ Update \/ StepOne
        \/ \E e \in EpNames : RecvAll(e)
Spec == Init /\ [][Next]_vars

Abs == INSTANCE Bus WITH outbox <- absout, inbox <- absin, subs <- subm, limbo <- {}, origins <- EpNames

Opt(e) == {<<k, ent.m.id>> : k \in DOMAIN subm[e], ent \in Abs!Range(absin[e])}
AbsNext == \/ \E e \in EpNames, k \in Keys, s \in Snds : Abs!Subscribe(e, k, {s})
           \/ \E e \in EpNames : \E m \in Abs!Range(absout'[e]) : Abs!Send(e, m)
           \/ Abs!Route
           \/ \E e \in EpNames : \E D \in SUBSET Opt(e) : Abs!ReceiveAll(e, D)
Refines == [][AbsNext]_<<absout, absin, subm>>

Inv == /\ (~inroute => routing = <<>> /\ absout = sendv)
       \* what the algorithm holds for an endpoint is what the abstract inbox holds, minus what nobody is owed
       /\ (~inroute => \A e \in EpNames :
             LET ids == {recvv[e][i].id : i \in DOMAIN recvv[e]}
                 kept == SelectSeq(absin[e], LAMBDA x : x.m.id \in ids)
             IN /\ recvv[e] = [i \in DOMAIN kept |-> kept[i].m]
                /\ \A i \in DOMAIN absin[e] : absin[e][i].must # {} => absin[e][i].m.id \in ids)
=============================================================================
