---- MODULE ParamGen ----
(* Scripts of operations for real nuisance parameters, from Param.           *)
EXTENDS Param
GSpec == Init /\ [][Next]_vars
EmitOK == Len(log) = MaxOps => PrintT("SCRIPT " \o kind \o " " \o ToString(need) \o " " \o ToString(log))
====
