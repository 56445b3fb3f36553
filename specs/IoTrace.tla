------------------------------- MODULE IoTrace -------------------------------
(* Recorded calls of the real handlers and converters.                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
H == INSTANCE Handlers
V == INSTANCE Convert
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h, c, pos, n
vars == <<l, h, c, pos, n>>
E == Trace[l]
None == [ev |-> "none"]
Init == l = 1 /\ h = None /\ c = None /\ pos = 0 /\ n = 0

Reset == E.ev = "reset" /\ h' = None /\ c' = None /\ pos' = 0 /\ n' = 0
Handler == E.ev = "handler" /\ h' = E /\ UNCHANGED <<c, pos, n>>
Call == E.ev = "call" /\ TRUE = H!Allowed(h.kind, h.k, h.b, E.in, E.r) /\ UNCHANGED <<h, c, pos, n>>
Many == /\ E.ev = "many"
        /\ TRUE = \A i \in DOMAIN E.rs : H!Allowed(h.kind, h.k, h.b, E.in, E.rs[i])
        /\ TRUE = (UNION {ToSet(E.rs[i]) : i \in DOMAIN E.rs} = H!Candidates(h.kind, h.k, h.b, E.in[1]))
        /\ UNCHANGED <<h, c, pos, n>>
Open == E.ev \in {"seq", "idx"} /\ c' = E /\ pos' = 0 /\ n' = (IF E.ev = "seq" THEN E.n ELSE 0) /\ UNCHANGED h
Size == E.ev = "size" /\ n' = E.n /\ UNCHANGED <<h, c, pos>>
Next_ == /\ E.ev = "next"
         /\ IF c.ev = "seq" THEN E.r = V!Reads(c, pos, n) /\ pos' = pos + n
            ELSE E.r = V!Line(c, pos) /\ pos' = pos + 1
         /\ UNCHANGED <<h, c, n>>
Out == E.ev = "out" /\ E.r = V!Out(E.kind, E.n, E.in) /\ UNCHANGED <<h, c, pos, n>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Handler \/ Call \/ Many \/ Open \/ Size \/ Next_ \/ Out)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
