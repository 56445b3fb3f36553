------------------------------ MODULE ModelRun ------------------------------
(* A model: a network with input channels, message handlers, observers and   *)
(* output channels, and one step of running it.                              *)
(*   m.pops, m.projs : as in Engine; m.projs[q].src without channels         *)
(*   m.inch, m.outch : sequences of <<channel, projection / population>>     *)
(*   m.gens          : sequence of [ch, data], data: indexes by step, cyclic *)
(*   m.handlers      : sequence of [id, fn, from, to]                        *)
(*   m.obs           : sequence of [id, kind, from], kind 0 spikes, 1 impacts*)
(*   m.wta           : [k, b, pairs], pairs a sequence of [id, from, to]     *)
EXTENDS Engine
H == INSTANCE Handlers

Chans(m) == {m.inch[i][1] : i \in DOMAIN m.inch}
Outs(m) == {m.outch[i][1] : i \in DOMAIN m.outch}
HasData(m, c) == \E i \in DOMAIN m.gens : m.gens[i].ch = c
Loadable(m) == \A c \in Chans(m) : HasData(m, c)
Data(m, c, t) == LET g == CHOOSE i \in DOMAIN m.gens : m.gens[i].ch = c
                     d == m.gens[g].data
                 IN IF d = <<>> THEN <<>> ELSE d[(t % Len(d)) + 1]

\* who a projection listens to: what was declared, nothing else
Listens(m, q) == ToSet(m.projs[q].src) \cup {m.inch[i][1] : i \in {j \in DOMAIN m.inch : m.inch[j][2] = m.projs[q].id}}
                 \cup {m.handlers[i].id : i \in {j \in DOMAIN m.handlers : m.projs[q].id \in ToSet(m.handlers[j].to)}}
                 \cup {m.wta.pairs[i].id : i \in {j \in DOMAIN m.wta.pairs : m.projs[q].id \in ToSet(m.wta.pairs[j].to)}}
Wired(m) == [m EXCEPT !.projs = [q \in DOMAIN @ |-> [@[q] EXCEPT !.src = SetToSeq(Listens(m, q))]]]
OutPops(m, c) == {m.outch[i][2] : i \in {j \in DOMAIN m.outch : m.outch[j][1] = c}}

From(msgs, who) == SelectSeq(msgs, LAMBDA x : x[1] \in who)
\* the message each channel sends for a step: none without data
FromChannels(m, t) == LET cs == SetToSeq({c \in Chans(m) : Data(m, c, t) # <<>>})
                      IN [i \in DOMAIN cs |-> <<cs[i], t, Data(m, cs[i], t)>>]
Sorted(set) == SetToSortSeq(set, LAMBDA a, b : a < b)
\* the output of a handler that got the messages ms
Handle(fn, ms) == CASE fn = "const" -> <<0>>
                    [] fn = "count" -> <<Len(ms)>>
                    [] fn = "union" -> Sorted(UNION {ToSet(ms[i][3]) : i \in DOMAIN ms})
                    [] OTHER -> <<>>
\* the messages of the handlers for the next step
Handled(m, bus, t) ==
    Flat([i \in DOMAIN m.handlers |->
        LET o == Handle(m.handlers[i].fn, From(bus, ToSet(m.handlers[i].from)))
        IN IF o = <<>> THEN <<>> ELSE <<<<m.handlers[i].id, t + 1, o>>>>])

\* messages of the winner-take-all handlers in a step, where the step before had the messages old
WtaIds(m) == {m.wta.pairs[i].id : i \in DOMAIN m.wta.pairs}
WtaOK(m, old, new) == \A i \in DOMAIN m.wta.pairs :
    LET mine == From(new, {m.wta.pairs[i].id})
        got == From(old, ToSet(m.wta.pairs[i].from))
    IN /\ Len(mine) <= 1
       /\ H!Allowed("pergroup", m.wta.k, m.wta.b, [x \in DOMAIN got |-> got[x][3]], IF mine = <<>> THEN <<>> ELSE mine[1][3])

\* a step in which the populations and the winner-take-all handlers sent pm; s = [t, pend, ho, buf]; result additionally bus, now
RunStep(m, s, w, pm) ==
    LET bus == TLCEval(FromChannels(m, s.t) \o s.ho \o pm)
        sched == TLCEval(s.pend \o Flat([q \in DOMAIN m.projs |-> Crossing(m.projs[q], w[q], bus, s.t)]))
        now == SelectSeq(sched, LAMBDA x : x.due = s.t)
    IN [t |-> s.t + 1, bus |-> bus, now |-> [i \in DOMAIN now |-> now[i].im],
        pend |-> SelectSeq(sched, LAMBDA x : x.due # s.t),
        ho |-> Handled(m, bus, s.t),
        buf |-> [c \in DOMAIN s.buf |-> s.buf[c] \o From(bus, OutPops(m, c))]]

Fresh(m) == [t |-> 0, pend |-> <<>>, ho |-> <<>>, buf |-> [c \in Outs(m) |-> <<>>], bus |-> <<>>, now |-> <<>>]
Within(b, a, z) == SelectSeq(b, LAMBDA x : a <= x[2] /\ x[2] <= z)
Outside(b, a, z) == SelectSeq(b, LAMBDA x : ~(a <= x[2] /\ x[2] <= z))
InOrder(b) == \A i, j \in DOMAIN b : i < j => b[i][2] <= b[j][2]
=============================================================================
