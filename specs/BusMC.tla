------------------------------- MODULE BusMC -------------------------------
(* Exhaustive exploration of Bus in a small scope, with a delivery history,   *)
(* and generation of behaviours for replay.                                   *)
EXTENDS Bus, Json

CONSTANTS EpNames, Types, Rcvs, Snds, MaxMsgs, MaxSubs, MaxOps, GEN

VARIABLES nsent, got, hist
\* got: for every <<endpoint, key>> the ids ever stored (history variable)
mcvars == <<busvars, nsent, got, hist>>

Keys == Types \X Rcvs
H(s) == hist' = IF GEN THEN Append(hist, s) ELSE hist
Str(S) == S \* senders are given one at a time in generated behaviours

AllGot(s) == [x \in {<<e, k>> : e \in EpNames, k \in Keys} |->
                IF x[1] \in DOMAIN s /\ x[2] \in DOMAIN s[x[1]]
                THEN {m.id : m \in Range(s[x[1]][x[2]].store)} ELSE {}]

Init == BusInit /\ nsent = 0 /\ hist = <<>> /\ got = AllGot(subs)

NumSubs == Cardinality(UNION {{<<e, k>> : k \in DOMAIN subs[e]} : e \in Eps})

Opt(e) == {<<k, ent.m.id>> : k \in DOMAIN subs[e], ent \in Range(inbox[e])}

Step ==
    \/ \E e \in EpNames : CreateEp(e) /\ H(<<"ep", e>>) /\ UNCHANGED nsent
    \/ \E e \in Eps : DestroyEp(e) /\ H(<<"del", e>>) /\ UNCHANGED nsent
    \/ \E e \in Eps, k \in Keys, s \in Snds :
          /\ k \in DOMAIN subs[e] \/ NumSubs < MaxSubs
          /\ Subscribe(e, k, {s}) /\ H(<<"sub", e, k[1], k[2], s>>) /\ UNCHANGED nsent
    \/ \E e \in Eps, k \in Keys :
          k \in DOMAIN subs[e] /\ Unsubscribe(e, k) /\ H(<<"unsub", e, k[1], k[2]>>) /\ UNCHANGED nsent
    \/ \E e \in Eps, r \in Rcvs :
          /\ \E k \in DOMAIN subs[e] : k[2] = r
          /\ RemoveReceiver(e, r) /\ H(<<"rmrcv", e, r>>) /\ UNCHANGED nsent
    \/ \E e \in Eps, k \in Keys, s \in Snds :
          /\ k \in DOMAIN subs[e] /\ s \in subs[e][k].senders
          /\ RemoveSenders(e, k, {s}) /\ H(<<"rmsnd", e, k[1], k[2], s>>) /\ UNCHANGED nsent
    \/ \E e \in Eps, t \in Types, s \in Snds :
          /\ nsent < MaxMsgs /\ nsent' = nsent + 1
          /\ Send(e, [id |-> nsent + 1, ty |-> t, snd |-> s, org |-> e, b |-> ""])
          /\ H(<<"send", e, t, s, nsent + 1>>)
    \/ Pending # {} /\ Route /\ H(<<"route">>) /\ UNCHANGED nsent
    \/ \E e \in Eps : \E D \in (IF GEN THEN {{}} ELSE SUBSET Opt(e)) :
          inbox[e] # <<>> /\ ReceiveAll(e, D) /\ H(<<"recv", e>>) /\ UNCHANGED nsent
    \/ \E e \in Eps : \E i \in DOMAIN inbox[e] : \E D \in (IF GEN THEN {{}} ELSE SUBSET Opt(e)) :
          ReceiveOne(e, i, D) /\ H(<<"recv1", e>>) /\ UNCHANGED nsent
    \/ \E e \in Eps, k \in Keys :
          /\ k \in DOMAIN subs[e] /\ subs[e][k].store # <<>>
          /\ Unload(e, k) /\ H(<<"unload", e, k[1], k[2]>>) /\ UNCHANGED nsent

Next == Len(hist) < MaxOps /\ Step /\ got' = [x \in DOMAIN got |-> got[x] \union AllGot(subs')[x]]
Spec == Init /\ [][Next]_mcvars

\* Never stored twice: what enters a store was not there before (action property).
Entering(e, k) == {m.id : m \in Range(subs'[e][k].store)} \ {m.id : m \in Range(subs[e][k].store)}
OncePerLife == [][\A e \in Eps \intersect DOMAIN subs' : \A k \in DOMAIN subs[e] \intersect DOMAIN subs'[e] :
                    Entering(e, k) \intersect got[<<e, k>>] = {}]_mcvars
\* What is owed is delivered by the next complete receive.
OwedDelivered == [][\A e \in Eps \intersect DOMAIN subs' :
                      (inbox[e] # <<>> /\ inbox'[e] = <<>> /\ subs' # subs) =>
                         \A i \in DOMAIN inbox[e] : \A k \in inbox[e][i].must :
                            inbox[e][i].m.id \in {m.id : m \in Range(subs'[e][k].store)}]_mcvars
\* Bystanders: a call on one endpoint changes only that endpoint's subscriptions.
Bystanders == [][Cardinality({e \in Eps \intersect DOMAIN subs' : subs[e] # subs'[e]}) <= 1]_mcvars

Emit == (GEN /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
