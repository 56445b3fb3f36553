------------------------------ MODULE Backend ------------------------------
(* The life of a backend: runs, initialisation, the step counter, devices.   *)
(* A run is a sequence of callbacks; each callback can return, stop the run  *)
(* (stop()), uninitialise the backend (_uninit()) or throw.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
    step,       \* number of executed steps
    inited,     \* initialised and not uninitialised since
    running,
    sel,        \* selected devices
    pc,         \* "idle", or what the run does next: "init", "head", "step", "post"
    form        \* of the current run: [pre |-> has a before-condition, post |-> has an after-condition]
bvars == <<step, inited, running, sel, pc, form>>

BInit == step = 0 /\ inited = FALSE /\ running = FALSE /\ sel = {} /\ pc = "idle" /\ form = [pre |-> FALSE, post |-> FALSE]

Start(f) ==
    /\ pc = "idle"
    /\ form' = f
    /\ pc' = IF inited THEN "head" ELSE "init"
    /\ running' = inited                        \* running from the end of initialisation on
    /\ UNCHANGED <<step, inited, sel>>

\* A callback ended by throwing: the run is over, whatever the callback did before.
Thrown == running' = FALSE /\ pc' = "idle"

InitCall(d) ==
    /\ pc = "init"
    /\ \/ d = "ok" /\ inited' = TRUE /\ running' = TRUE /\ pc' = "head"
       \/ d = "throw" /\ inited' = FALSE /\ Thrown
    /\ UNCHANGED <<step, sel, form>>

\* what a callback does apart from its result
Does(d) == /\ running' = (running /\ d \notin {"stop", "xstop", "uninit"})
           /\ inited' = (inited /\ d # "uninit")

\* Before-condition: d says what it does, true/false what it returns.
PreCall(d, r) ==
    /\ pc = "head" /\ running /\ form.pre
    /\ IF d = "throw" THEN Thrown /\ UNCHANGED inited
       ELSE Does(d) /\ pc' = IF r /\ running' THEN "step" ELSE "end"
    /\ UNCHANGED <<step, sel, form>>

StepCall(d) ==
    /\ running
    /\ pc = "step" \/ (pc = "head" /\ ~form.pre)
    /\ IF d = "throw" THEN Thrown /\ UNCHANGED <<step, inited>>
       ELSE step' = step + 1 /\ Does(d) /\ pc' = IF form.post THEN "post" ELSE "head"
    /\ UNCHANGED <<sel, form>>

PostCall(d, r) ==
    /\ pc = "post"
    /\ IF d = "throw" THEN Thrown /\ UNCHANGED inited
       ELSE Does(d) /\ pc' = IF r THEN "head" ELSE "end"
    /\ UNCHANGED <<step, sel, form>>

\* The call returns.
Finish ==
    /\ pc = "end" \/ (pc = "head" /\ ~running)
    /\ pc' = "idle" /\ running' = FALSE
    /\ UNCHANGED <<step, inited, sel, form>>

Stop == pc = "idle" /\ UNCHANGED bvars
Uninit == pc = "idle" /\ inited' = FALSE /\ UNCHANGED <<step, running, sel, pc, form>>
RawStep == pc = "idle" /\ step' = step + 1 /\ UNCHANGED <<inited, running, sel, pc, form>>

\* Devices: exactly the requested ones, or a failure.
Select(S, avail, ok) ==
    /\ pc = "idle"
    /\ ok <=> S \subseteq avail
    /\ ok => sel' = S
    /\ UNCHANGED <<step, inited, running, pc, form>>
SelectOne(d) == pc = "idle" /\ sel' = {d} /\ UNCHANGED <<step, inited, running, pc, form>>
=============================================================================
