---------------------------- MODULE ValidationMC ----------------------------
(* Every small network: the validator's bookkeeping of ends (two flags for    *)
(* every population, set by the projections one after another) finds exactly  *)
(* the disconnected parts.  GEN emits the networks for the real validator.    *)
EXTENDS Validation, TLC, Json
CONSTANTS NPROJ, GEN
Pops == {"a", "b", "c"}
Ends == {"0", "a", "b", "c", "x"}
VARIABLES net, todo, flags, report
Names == <<"q", "r", "s", "t">>
Init == /\ \E P \in SUBSET Pops, k \in 0..NPROJ : \E f \in [1..k -> Ends \X Ends] :
              net = [pops |-> SetToSortSeq(P, LAMBDA x, y : x = "a" \/ (x = "b" /\ y = "c")), projs |-> [i \in 1..k |-> <<Names[i], f[i][1], f[i][2]>>]]
        /\ todo = 1 /\ flags = [p \in Pops \cup {"x"} |-> <<FALSE, FALSE>>] /\ report = <<>>
Next == \/ /\ todo <= Len(net.projs) /\ todo' = todo + 1 /\ UNCHANGED net
           /\ LET q == net.projs[todo]
              IN /\ flags' = [p \in DOMAIN flags |-> <<flags[p][1] \/ q[3] = p, flags[p][2] \/ q[2] = p>>]
                 /\ report' = IF q[2] = "0" /\ q[3] = "0" THEN Append(report, <<"error", "proj", <<q[1]>>>>) ELSE report
        \/ /\ todo = Len(net.projs) + 1 /\ todo' = todo + 1 /\ UNCHANGED <<net, flags>>
           /\ LET bad == SelectSeq(net.pops, LAMBDA p : ~flags[p][1] /\ ~flags[p][2])
              IN report' = report \o [i \in DOMAIN bad |-> <<"error", "pop", <<bad[i]>>>>]
Spec == Init /\ [][Next]_<<net, todo, flags, report>>
Right == todo = Len(net.projs) + 2 => Reported(net, report)
Emit == (GEN /\ todo = 1) => PrintT("BEH " \o ToJson(net))
=============================================================================
