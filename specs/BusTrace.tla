------------------------------ MODULE BusTrace ------------------------------
(* Is a recorded run of the real bus a behaviour of Bus?  Every event carries *)
(* the call, its arguments and result, and the visible state afterwards.      *)
EXTENDS Bus, FiniteSetsExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kind
tvars == <<busvars, l, kind>>

E == Trace[l]
Key(x) == <<x.ty, x.rcv>>
Set(s) == {s[i] : i \in DOMAIN s}

\* --- comparison of the recorded state with the specification's state

\* all messages ever sent in this episode that the specification still knows, by id
Strip(m) == [id |-> m.id, snd |-> m.snd, b |-> m.b]
\* recorded messages lack the origin; compare as sequences per origin through the specification's copy
SameStore(spec, rec) ==
    LET r == SelectSeq(rec, LAMBDA m : m.id \notin limbo')
        ids == {spec[i].id : i \in DOMAIN spec}
    IN /\ Len(spec) = Len(r)
       /\ \A i \in DOMAIN r : r[i].id \in ids
       /\ LET byid(id) == CHOOSE i \in DOMAIN spec : spec[i].id = id
              rr == [i \in DOMAIN r |-> spec[byid(r[i].id)]]
          IN /\ \A i \in DOMAIN r : Strip(rr[i]) = [id |-> r[i].id, snd |-> r[i].snd, b |-> r[i].b]
             /\ SameUpToInterleaving(spec, rr)

RecEps == {E.st[i].e : i \in DOMAIN E.st}
RecSubs(e) == (CHOOSE i \in DOMAIN E.st : E.st[i].e = e)
Matches ==
    /\ RecEps = DOMAIN subs'
    /\ \A i \in DOMAIN E.st :
         LET e == E.st[i].e
             rs == E.st[i].subs
         IN /\ {Key(rs[j]) : j \in DOMAIN rs} = DOMAIN subs'[e]
            /\ Len(rs) = Cardinality(DOMAIN subs'[e])
            /\ \A j \in DOMAIN rs :
                 /\ Set(rs[j].snd) = subs'[e][Key(rs[j])].senders
                 /\ Len(rs[j].snd) = Cardinality(Set(rs[j].snd))
                 /\ SameStore(subs'[e][Key(rs[j])].store, rs[j].msgs)

\* optional deliveries seen in the record
Seen(e) == LET ix == {i \in DOMAIN E.st : E.st[i].e = e} IN
           UNION {UNION {{<<Key(E.st[i].subs[j]), E.st[i].subs[j].msgs[n].id>> :
                             n \in DOMAIN E.st[i].subs[j].msgs} : j \in DOMAIN E.st[i].subs} : i \in ix}

Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1

Reset == /\ Is("new")
         /\ outbox' = EmptyF /\ inbox' = EmptyF /\ subs' = EmptyF /\ limbo' = {} /\ origins' = {}
         /\ kind' = E.kind
         /\ Matches
K == UNCHANGED kind
Next ==
    \/ Reset
    \/ Is("ep") /\ CreateEp(E.e) /\ Matches /\ K
    \/ Is("del") /\ DestroyEp(E.e) /\ Matches /\ K
    \/ Is("move") /\ MoveEp(E.e) /\ Matches /\ K
    \/ Is("sub") /\ Subscribe(E.e, Key(E), Set(E.snd)) /\ Matches /\ K
    \/ Is("addsnd") /\ E.n = AddedCount(E.e, Key(E), Set(E.snd)) /\ AddSenders(E.e, Key(E), Set(E.snd)) /\ Matches /\ K
    \/ Is("rmsnd") /\ E.n = RemovedCount(E.e, Key(E), Set(E.snd)) /\ RemoveSenders(E.e, Key(E), Set(E.snd)) /\ Matches /\ K
    \/ Is("unsub") /\ E.res = UnsubscribeResult(E.e, Key(E)) /\ Unsubscribe(E.e, Key(E)) /\ Matches /\ K
    \/ Is("rmrcv") /\ RemoveReceiver(E.e, E.rcv) /\ Matches /\ K
    \/ Is("send") /\ Send(E.e, [id |-> E.id, ty |-> E.ty, snd |-> E.snd, org |-> E.e, b |-> E.b, sz |-> E.sz]) /\ Matches /\ K
    \/ Is("route") /\ (kind = "cpu" => E.n = FoldSet(LAMBDA m, a : a + m.sz, 0, Pending)) /\ Route /\ Matches /\ K
    \/ Is("recv") /\ E.n >= Cardinality({i \in DOMAIN inbox[E.e] : inbox[E.e][i].must # {}})
                  /\ ReceiveAll(E.e, Seen(E.e)) /\ Matches /\ K
    \/ Is("recv1") /\ E.res /\ (\E i \in DOMAIN inbox[E.e] : ReceiveOne(E.e, i, Seen(E.e))) /\ Matches /\ K
    \* a message whose own endpoint died before routing may still arrive: nothing is promised about it
    \/ Is("recv1") /\ E.res /\ limbo # {} /\ UNCHANGED busvars /\ Matches /\ K
    \/ Is("recv1") /\ ~E.res /\ ReceiveNothing(E.e) /\ Matches /\ K
    \/ Is("unload") /\ Unload(E.e, Key(E)) /\ SameStore(UnloadResult(E.e, Key(E)), E.msgs) /\ Matches /\ K

TraceInit == BusInit /\ l = 1 /\ kind = "none"
TraceSpec == TraceInit /\ [][Next]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
