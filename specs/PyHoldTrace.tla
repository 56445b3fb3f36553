----------------------------- MODULE PyHoldTrace -----------------------------
(* A backend used by a Python program: as HoldTrace; what it supports is not  *)
(* shown to Python programs.                                                  *)
EXTENDS HoldTrace
New == Is("new") /\ be' = E.be /\ pops' = {} /\ projs' = {} /\ step' = 0 /\ Matches
PySpec == HInit("st") /\ l = 1 /\ [][(l <= Len(Trace) /\ IF E.op = "new" THEN New ELSE Next)]_tv
=============================================================================
