------------------------------- MODULE ModelMC -------------------------------
(* Small models, every order of running and reading: every message of a step *)
(* reaches each of its readers once; the impacts, the handlers' outputs and  *)
(* the contents of output channels follow from the history of messages.      *)
EXTENDS ModelRun, Json, IOUtils
CONSTANTS MAXT, MAXOPS, GEN
NETS == ndJsonDeserialize(IOEnv.NETS)
VARIABLES k, s, st, hist, nows, read, ops
\* hist[t+1]: messages of step t; nows[t+1]: impacts of step t; read[c]: all that was read from c, in order
vars == <<k, s, st, hist, nows, read, ops>>
m == Wired(NETS[k])
w == NETS[k].w

Init == /\ k \in DOMAIN NETS
        /\ s = Fresh(NETS[k]) /\ st = [p \in DOMAIN NETS[k].pops |-> NETS[k].pops[p].n]
        /\ hist = <<>> /\ nows = <<>> /\ read = [c \in Outs(NETS[k]) |-> <<>>] /\ ops = <<>>

\* a step of populations and model together
Both(x) ==
    LET wire == IF x.nows = <<>> THEN <<>> ELSE x.nows[Len(x.nows)]
        res == TLCEval(PopStep(m, x.st, wire))
        fired(p) == SelectSeq([j \in DOMAIN x.st[p] |-> j], LAMBDA j : res[p][j].sp)
        pm == Flat([p \in DOMAIN m.pops |-> IF fired(p) = <<>> THEN <<>> ELSE
                 <<<<m.pops[p].id, x.s.t, [i \in DOMAIN fired(p) |-> fired(p)[i] - 1]>>>>])
        r == TLCEval(RunStep(m, x.s, w, pm))
    IN [s |-> r, st |-> [p \in DOMAIN x.st |-> [j \in DOMAIN x.st[p] |-> res[p][j].n]],
        hist |-> Append(x.hist, r.bus), nows |-> Append(x.nows, r.now)]
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN x ELSE Times(Both(x), n - 1)

Run(n) == /\ s.t + n <= MAXT
          /\ LET x == TLCEval(Times([s |-> s, st |-> st, hist |-> hist, nows |-> nows], n))
             IN s' = x.s /\ st' = x.st /\ hist' = x.hist /\ nows' = x.nows
          /\ ops' = Append(ops, <<"run", n>>)
          /\ UNCHANGED <<k, read>>
Read(c, a, b) ==
    /\ read' = [read EXCEPT ![c] = @ \o Within(s.buf[c], a, b)]
    /\ s' = [s EXCEPT !.buf[c] = Outside(@, a, b)]
    /\ ops' = Append(ops, <<"read", c, a, b>>)
    /\ UNCHANGED <<k, st, hist, nows>>
Next == Len(ops) < MAXOPS /\
    (\/ \E n \in 1..3 : Run(n)
     \/ \E c \in DOMAIN s.buf : \E a \in 0..s.t, b \in 0..s.t : Read(c, a, b))
Spec == Init /\ [][Next]_vars
View == <<k, s, st, hist, nows, read, Len(ops)>>

All == Flat(hist)
\* every message is of its step, one per sender and step
Stamped == \A t \in DOMAIN hist : /\ \A i \in DOMAIN hist[t] : hist[t][i][2] = t - 1 /\ hist[t][i][3] # <<>>
                                  /\ \A i, j \in DOMAIN hist[t] : i # j => hist[t][i][1] # hist[t][j][1]
\* a channel's messages are its data
ChannelData == \A c \in Chans(m) : \A t \in DOMAIN hist :
    [i \in DOMAIN From(hist[t], {c}) |-> From(hist[t], {c})[i][3]] = IF Data(m, c, t - 1) = <<>> THEN <<>> ELSE <<Data(m, c, t - 1)>>
\* a handler's messages are made of the messages its senders sent one step before
HandlerData == \A h \in DOMAIN m.handlers : \A t \in DOMAIN hist :
    LET before == IF t = 1 THEN <<>> ELSE From(hist[t - 1], ToSet(m.handlers[h].from))
        o == IF t = 1 THEN <<>> ELSE Handle(m.handlers[h].fn, before)
    IN [i \in DOMAIN From(hist[t], {m.handlers[h].id}) |-> From(hist[t], {m.handlers[h].id})[i][3]] = IF o = <<>> THEN <<>> ELSE <<o>>
\* read and still buffered are all there ever was, read in order inside one read
Kept == \A c \in DOMAIN s.buf : BagOf(read[c] \o s.buf[c]) = BagOf(From(All, OutPops(m, c))) /\ InOrder(s.buf[c])
\* impacts: looking back from each synapse at what its projection was declared to listen to
Back(q, i, t) == IF t < 1 \/ t > Len(hist) THEN 0 ELSE
    Count(Flat([x \in DOMAIN hist[t] |-> IF hist[t][x][1] \in Listens(NETS[k], q) THEN hist[t][x][3] ELSE <<>>]), m.projs[q].syn[i].s)
Crossed == \A t \in DOMAIN nows : BagOf(nows[t]) =
    BagOf(Flat(Flat([q \in DOMAIN m.projs |-> [i \in DOMAIN m.projs[q].syn |->
        Rep(ImpactOf(m.projs[q], i, w[q][i]), Back(q, i, t + 1 - m.projs[q].syn[i].dl))]])))
Emit == (GEN /\ Len(ops) = MAXOPS) => PrintT("BEH " \o ToJson(<<k>> \o ops))
=============================================================================
