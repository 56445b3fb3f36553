----------------------------- MODULE PyRunTrace -----------------------------
(* Is a recorded run of a model made and run by a Python program a behaviour *)
(* of ModelRun?  As ModelTrace; an exception raised in the condition or by   *)
(* an observer stops the run like a call to stop, and reaches the program.   *)
EXTENDS ModelTrace
Asked(n, who, k) == who # "none" /\ k <= (IF who = "p" THEN n + 1 ELSE n)
PyRun == Run /\ E.err = (IF E.raises /\ Asked(E.n, E.stop, E.k) THEN "ValueError" ELSE "")
\* what the program kept of a model it let go of
Leave == /\ E.ev = "leave"
         /\ E.left = 0
         /\ ToSet(E.pops) = {m.pops[p].id : p \in DOMAIN m.pops} /\ Len(E.pops) = Len(m.pops)
         /\ ToSet(E.projs) = {m.projs[q].id : q \in DOMAIN m.projs} /\ Len(E.projs) = Len(m.projs)
         /\ UNCHANGED <<m, s, w, mem>>
PyNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Refused \/ PyRun \/ Read \/ Update \/ Copy \/ Lock \/ Leave)
PySpec == Init /\ [][PyNext]_vars
=============================================================================
