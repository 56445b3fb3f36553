----------------------------- MODULE BackendMC -----------------------------
EXTENDS Backend, TLC, Json
CONSTANTS MaxSteps, MaxOps, GEN
VARIABLES hist, asked, inits, steps
mc == <<step, inited, running, sel, pc, form, hist, asked, inits, steps>>
\* asked: the current run was asked to end (a stop, a false condition, a throw);
\* inits: initialisations since the last uninitialisation; steps: executed steps, counted here
Avail == {"d1", "d2", "d3"}
Forms == {[pre |-> p, post |-> q] : p, q \in BOOLEAN}
Decs == {"ok", "stop", "uninit", "throw"}
H(x) == hist' = IF GEN \/ pc = "idle" THEN Append(hist, x) ELSE hist

Init == BInit /\ hist = <<>> /\ asked = FALSE /\ inits = 0 /\ steps = 0

Next ==
    \/ \E f \in Forms : Len(hist) < MaxOps /\ Start(f) /\ H(<<"start", f.pre, f.post>>) /\ asked' = FALSE /\ UNCHANGED <<inits, steps>>
    \/ \E d \in {"ok", "throw"} : InitCall(d) /\ H(<<"init", d>>) /\ asked' = (d = "throw")
          /\ inits' = (IF d = "ok" THEN inits + 1 ELSE inits) /\ UNCHANGED steps
    \/ \E d \in Decs, r \in BOOLEAN : PreCall(d, r) /\ H(<<"pre", d, r>>) /\ asked' = (asked \/ d # "ok" \/ ~r)
          /\ inits' = (IF d = "uninit" THEN 0 ELSE inits) /\ UNCHANGED steps
    \/ \E d \in Decs : step < MaxSteps /\ StepCall(d) /\ H(<<"step", d>>) /\ asked' = (asked \/ d # "ok")
          /\ inits' = (IF d = "uninit" THEN 0 ELSE inits) /\ steps' = (IF d = "throw" THEN steps ELSE steps + 1)
    \/ step = MaxSteps /\ StepCall("stop") /\ H(<<"step", "stop">>) /\ asked' = TRUE /\ steps' = steps + 1 /\ UNCHANGED inits
    \/ \E d \in Decs, r \in BOOLEAN : PostCall(d, r) /\ H(<<"post", d, r>>) /\ asked' = (asked \/ d # "ok" \/ ~r)
          /\ inits' = (IF d = "uninit" THEN 0 ELSE inits) /\ UNCHANGED steps
    \/ Finish /\ H(<<"finish">>) /\ UNCHANGED <<asked, inits, steps>>
    \/ Len(hist) < MaxOps /\
        (\/ Stop /\ H(<<"stop">>) /\ UNCHANGED <<asked, inits, steps>>
         \/ Uninit /\ H(<<"uninit">>) /\ inits' = 0 /\ UNCHANGED <<asked, steps>>
         \/ RawStep /\ step < MaxSteps /\ H(<<"rawstep">>) /\ steps' = steps + 1 /\ UNCHANGED <<asked, inits>>
         \/ \E S \in SUBSET (Avail \union {"d4"}) : Select(S, Avail, S \subseteq Avail) /\ (sel' = sel \/ S \subseteq Avail)
               /\ H(<<"select", S>>) /\ UNCHANGED <<asked, inits, steps>>
         \/ \E d \in Avail : SelectOne(d) /\ H(<<"select1", d>>) /\ UNCHANGED <<asked, inits, steps>>)
Spec == Init /\ [][Next]_mc /\ WF_mc(Next)

IdleNotRunning == pc = "idle" => ~running
InitOnce == inits \in {0, 1} /\ (inits = 1 <=> inited)
Counted == step = steps
RunningInited == running => inited
NoStepAfterEnd == [][step' # step => (pc = "idle" \/ ~asked)]_mc
StepsInitialised == [][step' # step => (pc = "idle" \/ inited)]_mc
KeepsCounting == [][step' \in {step, step + 1}]_mc
EndsWhenAsked == [](asked => <>(pc = "idle"))
Emit == (GEN /\ Len(hist) >= MaxOps /\ pc = "idle") => PrintT("BEH " \o ToJson(hist))
=============================================================================
