---------------------------- MODULE BackendTrace ----------------------------
(* A recorded history: one line per call; a run's line lists its callbacks.  *)
EXTENDS Backend, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c
tv == <<step, inited, running, sel, pc, form, l, c>>
E == Trace[l]
Set(s) == {s[i] : i \in DOMAIN s}
Is(o) == l <= Len(Trace) /\ E.op = o
\* the line is explained: nothing of it is left, and what is seen after the call agrees
Line == l' = l + 1 /\ c' = 0 /\ TLCSet(1, l)
        /\ E.step = step' /\ E.running = running' /\ Set(E.sel) = sel' /\ Len(E.sel) = Cardinality(sel')
C == E.calls[c]
More == c' = c + 1 /\ UNCHANGED l
\* a callback sees the step number and whether the backend is running
Sees(r) == C.step = step /\ C.running = r
LastOf == c = Len(E.calls)

Next ==
    \/ Is("new") /\ step' = 0 /\ inited' = FALSE /\ running' = FALSE /\ sel' = {} /\ pc' = "idle" /\ form' = form /\ Line
    \/ Is("start") /\ c = 0 /\ Start([pre |-> E.pre, post |-> E.post]) /\ c' = 1 /\ UNCHANGED l
    \/ Is("start") /\ c > 0 /\ c <= Len(E.calls) /\ pc # "idle" /\
        ( \/ C.k = "init" /\ C.step = step /\ InitCall(C.d)
          \/ C.k = "pre" /\ Sees(TRUE) /\ PreCall(C.d, C.r)
          \/ C.k = "step" /\ Sees(TRUE) /\ StepCall(C.d)
          \/ C.k = "post" /\ Sees(running) /\ PostCall(C.d, C.r) )
        /\ IF pc' = "idle" THEN LastOf /\ E.res = "throw" /\ Line ELSE More
    \/ Is("start") /\ c = Len(E.calls) + 1 /\ Finish /\ E.res = "ok" /\ Line
    \/ Is("stop") /\ Stop /\ Line
    \/ Is("uninit") /\ Uninit /\ Line
    \/ Is("rawstep") /\ RawStep /\ Line
    \/ Is("select") /\ sel' = Set(E.sel) /\ sel' \subseteq (Set(E.avail) \union sel) /\ Select(Set(E.want), Set(E.avail), E.res = "ok") /\ Line
    \/ Is("select1") /\ SelectOne(E.d) /\ Line /\ ("avail" \in DOMAIN E => E.d \in Set(E.avail))
    \/ Is("devs") /\ UNCHANGED bvars /\ Line /\ E.cpu /\ Set(E.list) = Set(E.avail) /\ Len(E.list) = Cardinality(Set(E.list))
TraceSpec == BInit /\ l = 1 /\ c = 0 /\ TLCSet(1, 0) /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet(1)>>)
=============================================================================
