------------------------------ MODULE BusMTImpl ------------------------------
(* The CPU bus under several threads: one lock of the bus, one lock of each   *)
(* endpoint, a send vector and a receive queue per endpoint, a routing queue. *)
(* Changing a container is a read and a write, between which others may run.  *)
(* With SHARED the bus takes an endpoint's lock to touch its containers;      *)
(* without, it does not, and messages are lost: the contract does not hold.   *)
(* Programs: sequences of <<"S", endpoint>>, <<"R", "">>, <<"C", endpoint>>.  *)
EXTENDS BusMT, Json, IOUtils
CONSTANT SHARED
EpL == <<"e0", "e1">>
Prog == JsonDeserialize(IOEnv.PROGS)
Threads == DOMAIN Prog
VARIABLES pos, pc, ix, buf, cur, busl, epl, sendv, recvv, routing, ok
vars == <<mtvars, pos, pc, ix, buf, cur, busl, epl, sendv, recvv, routing, ok>>
K == <<"S", "r">>
Init == /\ MTInit([e \in Elems(EpL) |-> (K :> {"s"})])
        /\ pos = [t \in Threads |-> 1] /\ pc = [t \in Threads |-> "idle"] /\ ix = [t \in Threads |-> 1]
        /\ buf = [t \in Threads |-> <<>>] /\ cur = [t \in Threads |-> <<>>]
        /\ busl = 0 /\ epl = [e \in Elems(EpL) |-> 0]
        /\ sendv = [e \in Elems(EpL) |-> <<>>] /\ recvv = sendv /\ routing = <<>> /\ ok = TRUE
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Set(f, t, v) == [f EXCEPT ![t] = v]
\* the lock of endpoint e as the bus takes it
BusTakes(t, e) == IF SHARED THEN epl[e] = 0 /\ epl' = Set(epl, e, t) ELSE UNCHANGED epl
BusGives(t, e) == IF SHARED THEN epl' = Set(epl, e, 0) ELSE UNCHANGED epl
Op(t) == Prog[t][pos[t]]
CallBegin(t) ==
    /\ pc[t] = "idle" /\ pos[t] <= Len(Prog[t]) /\ pos' = Set(pos, t, pos[t] + 1)
    /\ CASE Op(t)[1] = "S" -> /\ LET id == Cardinality(DOMAIN msgs) + 1 IN
                                    SendBegin(t, Op(t)[2], id, [ty |-> "S", snd |-> "s", b |-> ""]) /\ cur' = Set(cur, t, <<id>>)
                              /\ Go(t, "send")
         [] Op(t)[1] = "R" -> RouteBegin(t) /\ Go(t, "update") /\ UNCHANGED cur
         [] Op(t)[1] = "C" -> RecvBegin(t, Op(t)[2]) /\ cur' = Set(cur, t, <<>>) /\ Go(t, "recv")
    /\ ix' = Set(ix, t, 1)
    /\ UNCHANGED <<buf, busl, epl, sendv, recvv, routing, ok>>
E(t) == calls[t].e
\* sending
Send1(t) == /\ pc[t] = "send" /\ epl[E(t)] = 0 /\ epl' = Set(epl, E(t), t) /\ buf' = Set(buf, t, sendv[E(t)]) /\ Go(t, "sendw")
            /\ UNCHANGED <<mtvars, pos, ix, cur, busl, sendv, recvv, routing, ok>>
Send2(t) == /\ pc[t] = "sendw" /\ sendv' = Set(sendv, E(t), buf[t] \o cur[t]) /\ epl' = Set(epl, E(t), 0) /\ SendEnd(t) /\ Go(t, "idle")
            /\ UNCHANGED <<pos, ix, buf, cur, busl, recvv, routing, ok>>
\* receiving everything, one message at a time
Recv1(t) == /\ pc[t] = "recv" /\ epl[E(t)] = 0
            /\ IF recvv[E(t)] = <<>>
               THEN /\ RecvEffect(t, K :> cur[t]) /\ ok' = (ok /\ RecvOK(t, K :> cur[t])) /\ Go(t, "idle") /\ UNCHANGED <<epl, buf>>
               ELSE /\ epl' = Set(epl, E(t), t) /\ buf' = Set(buf, t, recvv[E(t)]) /\ Go(t, "recvw") /\ UNCHANGED <<mtvars, ok>>
            /\ UNCHANGED <<pos, ix, cur, busl, sendv, recvv, routing>>
Recv2(t) == /\ pc[t] = "recvw" /\ recvv' = Set(recvv, E(t), Tail(buf[t])) /\ cur' = Set(cur, t, Append(cur[t], Head(buf[t])))
            /\ epl' = Set(epl, E(t), 0) /\ Go(t, "recv")
            /\ UNCHANGED <<mtvars, pos, ix, buf, busl, sendv, routing, ok>>
\* routing: update() collects from every endpoint, step() forwards one message to every endpoint
Update0(t) == /\ pc[t] = "update" /\ busl = 0 /\ busl' = t /\ Go(t, "collect") /\ ix' = Set(ix, t, 1)
              /\ UNCHANGED <<mtvars, pos, buf, cur, epl, sendv, recvv, routing, ok>>
Collect1(t) == /\ pc[t] = "collect" /\ ix[t] <= Len(EpL) /\ BusTakes(t, EpL[ix[t]])
               /\ routing' = routing \o sendv[EpL[ix[t]]] /\ Go(t, "collectw")
               /\ UNCHANGED <<mtvars, pos, ix, buf, cur, busl, sendv, recvv, ok>>
Collect2(t) == /\ pc[t] = "collectw" /\ sendv' = Set(sendv, EpL[ix[t]], <<>>) /\ BusGives(t, EpL[ix[t]])
               /\ ix' = Set(ix, t, ix[t] + 1) /\ Go(t, "collect")
               /\ UNCHANGED <<mtvars, pos, buf, cur, busl, recvv, routing, ok>>
UpdateEnd(t) == /\ pc[t] = "collect" /\ ix[t] > Len(EpL) /\ busl' = 0 /\ Go(t, "step")
                /\ UNCHANGED <<mtvars, pos, ix, buf, cur, epl, sendv, recvv, routing, ok>>
Step0(t) == /\ pc[t] = "step" /\ busl = 0
            /\ IF routing = <<>> THEN RouteEnd(t) /\ Go(t, "idle") /\ UNCHANGED <<busl, routing, cur, ix>>
               ELSE /\ busl' = t /\ cur' = Set(cur, t, <<Head(routing)>>) /\ routing' = Tail(routing) /\ ix' = Set(ix, t, 1) /\ Go(t, "give")
                    /\ UNCHANGED mtvars
            /\ UNCHANGED <<pos, buf, epl, sendv, recvv, ok>>
Give1(t) == /\ pc[t] = "give" /\ ix[t] <= Len(EpL) /\ BusTakes(t, EpL[ix[t]]) /\ buf' = Set(buf, t, recvv[EpL[ix[t]]]) /\ Go(t, "givew")
            /\ UNCHANGED <<mtvars, pos, ix, cur, busl, sendv, recvv, routing, ok>>
Give2(t) == /\ pc[t] = "givew" /\ recvv' = Set(recvv, EpL[ix[t]], buf[t] \o cur[t]) /\ BusGives(t, EpL[ix[t]])
            /\ ix' = Set(ix, t, ix[t] + 1) /\ Go(t, "give")
            /\ UNCHANGED <<mtvars, pos, buf, cur, busl, sendv, routing, ok>>
StepEnd(t) == /\ pc[t] = "give" /\ ix[t] > Len(EpL) /\ busl' = 0 /\ Go(t, "step")
              /\ UNCHANGED <<mtvars, pos, ix, buf, cur, epl, sendv, recvv, routing, ok>>
Done == (\A t \in Threads : pc[t] = "idle" /\ pos[t] > Len(Prog[t])) /\ UNCHANGED vars
Next == Done \/ \E t \in Threads : \/ CallBegin(t) \/ Send1(t) \/ Send2(t) \/ Recv1(t) \/ Recv2(t) \/ Update0(t) \/ Collect1(t) \/ Collect2(t)
                                   \/ UpdateEnd(t) \/ Step0(t) \/ Give1(t) \/ Give2(t) \/ StepEnd(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(CallBegin(t) \/ Send1(t) \/ Send2(t) \/ Recv1(t) \/ Recv2(t)
            \/ Update0(t) \/ Collect1(t) \/ Collect2(t) \/ UpdateEnd(t) \/ Step0(t) \/ Give1(t) \/ Give2(t) \/ StepEnd(t))
Contract == ok
OneLock == \A e \in Elems(EpL) : epl[e] # 0 => \A f \in Elems(EpL) : f # e => epl[f] # epl[e]
Ends == <>(\A t \in Threads : pc[t] = "idle" /\ pos[t] > Len(Prog[t]))
=============================================================================
