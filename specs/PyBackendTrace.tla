--------------------------- MODULE PyBackendTrace ---------------------------
(* Runs made by a Python program: as BackendTrace, but initialisation and    *)
(* steps are the backend's own and not seen.                                 *)
EXTENDS BackendTrace
Unseen == Is("start") /\ c > 0 /\ c <= Len(E.calls) + 1 /\ (InitCall("ok") \/ StepCall("ok")) /\ UNCHANGED <<l, c>>
PySpec == BInit /\ l = 1 /\ c = 0 /\ TLCSet(1, 0) /\ [][Next \/ Unseen]_tv
=============================================================================
