----------------------------- MODULE BusMTTrace -----------------------------
(* Executions of a real bus by several threads against BusMT.  A receive is   *)
(* followed, in the same thread, by reading out every subscription.           *)
EXTENDS BusMT, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
SubsOf(es, x) == [e \in Elems(es) |->
                 LET ks == {i \in DOMAIN x : x[i].e = e} IN
                 [k \in {<<x[i].ty, x[i].rcv>> : i \in ks} |-> UNION {Elems(x[i].snd) : i \in {j \in ks : <<x[j].ty, x[j].rcv>> = k}}]]
Got(x) == [k \in {<<x[i].ty, x[i].rcv>> : i \in DOMAIN x} |->
              LET i == CHOOSE j \in DOMAIN x : <<x[j].ty, x[j].rcv>> = k IN [n \in DOMAIN x[i].msgs |-> x[i].msgs[n].id]]
\* messages arrive as they were sent
Intact(x) == \A i \in DOMAIN x : \A n \in DOMAIN x[i].msgs :
    LET m == x[i].msgs[n] IN m.id \in DOMAIN msgs /\ msgs[m.id].ty = x[i].ty /\ msgs[m.id].snd = m.snd /\ msgs[m.id].b = m.b
Next == \/ Is("new") /\ LET s == SubsOf(E.eps, E.subs) IN
             /\ subs' = s /\ msgs' = <<>> /\ sent' = {} /\ routed' = {} /\ calls' = <<>>
             /\ store' = [e \in DOMAIN s |-> [k \in DOMAIN s[e] |-> <<>>]]
        \/ Is("send") /\ SendBegin(E.t, E.e, E.id, [ty |-> E.ty, snd |-> E.snd, b |-> E.b])
        \/ Is("sent") /\ SendEnd(E.t)
        \/ Is("route") /\ RouteBegin(E.t)
        \/ Is("routed") /\ RouteEnd(E.t)
        \/ Is("recv") /\ RecvBegin(E.t, E.e)
        \/ Is("received") /\ Intact(E.got) /\ RecvEnd(E.t, Got(E.got))
        \* everything was sent, routed and received
        \/ Is("done") /\ calls = <<>> /\ routed = DOMAIN msgs /\ UNCHANGED mtvars
TraceSpec == MTInit(<<>>) /\ l = 1 /\ [][Next]_<<mtvars, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
