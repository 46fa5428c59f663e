---- MODULE CpdGen ----
(* All tables of counts, as data for the real code.                          *)
EXTENDS Cpd
EmitOK == PrintT("SCRIPT " \o ToString(c))
GInit == Init
GSpec == GInit /\ [][UNCHANGED vars]_vars
====
