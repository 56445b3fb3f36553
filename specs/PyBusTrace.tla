----------------------------- MODULE PyBusTrace -----------------------------
(* Is what a Python program saw of a bus a behaviour of Bus?  As BusTrace,   *)
(* and a call with a wrong argument is refused and does nothing.             *)
EXTENDS BusTrace
Refused == Is("bad") /\ E.err # "" /\ UNCHANGED busvars /\ Matches /\ K
PySpec == TraceInit /\ [][Next \/ Refused]_tvars
=============================================================================
