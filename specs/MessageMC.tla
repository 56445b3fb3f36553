----------------------------- MODULE MessageMC -----------------------------
EXTENDS Message, TLC, Json
CONSTANT MaxLen
VARIABLES m, old, done
vars == <<m, old, done>>
D2 == {"lo", "hi"}
SeqsOf(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
Spikes == [k : {"spike"}, snd : {"u1", "u2"}, time : {"lo", "mid", "hi"}, idx : SeqsOf(D2)]
Imp == {<<c, v, t, s, d>> : c \in D2, v \in {"v1", "v2"}, t \in {0, 4}, s \in {"lo"}, d \in D2}
Impacts == [k : {"impact"}, snd : {"u1"}, time : {"lo", "hi"}, pre : {"u1", "nil"}, post : {"u2", "nil"}, forcing : {0, 1}, imps : SeqsOf(Imp)]
Init == m \in Spikes \union Impacts /\ old \in {"empty", "full"} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<m, old>>
Spec == Init /\ [][Next]_vars
RoundTrip == Read(m.k, Text(m), old) = m /\ Extract(Pack(m)) = m
\* the text says where a message ends, so that messages can follow one another
SelfDelimiting == \A s \in {<<>>, Text(m)} : Read(m.k, Text(m) \o s, old) = m
Emit == done => PrintT("BEH " \o ToJson(<<m, old>>))
=============================================================================
