---- MODULE PaperModelTrace ----
(* Judges real models of the paper's examples.  A trace has M, zdim, vdim, exc, *)
(* graph: var, parents (as its mechanism received them), in sampling order,     *)
(* blocks (the variables whose columns are the covariates, in order), roles     *)
(* (the treatment and the response of the data), mechanisms: var, change        *)
(* (whether its samples change with the columns of its parents), swaps (whether *)
(* they change when parents of different paths are exchanged), noisy (whether   *)
(* they vary), values (that X takes; that Z_0 takes in control), other (that    *)
(* Z_0 takes in treatment).                                                     *)
EXTENDS PaperGraph, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, fin
vars == <<tid, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}
Dim(v) == IF v[1] = "Z" THEN T.zdim[v[2] + 1] ELSE IF v[1] = "V" THEN T.vdim[v[2] + 1] ELSE 1
RECURSIVE Dims(_)
Dims(s) == IF s = <<>> THEN 0 ELSE Dim(Head(s)) + Dims(Tail(s))
MechanismBad(m) ==
  If(Len(m.change) # Dims(Parents(m.var, T.M)) \/ \E k \in 1..Len(m.change) : ~m.change[k], "C31.depends") \cup
  If(\E k \in 1..Len(m.swaps) : ~m.swaps[k], "C31.separate") \cup
  If(~m.noisy, "C31.noise") \cup
  If(m.var = X /\ Range(m.values) # {<<"0.0">>, <<"1.0">>}, "C31.binary") \cup
  If(m.var = Z(0) /\ (Range(m.values) # Range(m.other) \/ Len(m.values) > 40), "C31.support")
Bad == IF T.exc # "" THEN {"C31.exception"} ELSE
  If({g.var : g \in Range(T.graph)} # Vars(T.M) \/ Len(T.graph) # 2 * T.M + 3, "C31.graph") \cup
  If(\E g \in Range(T.graph) : g.parents # Parents(g.var, T.M), "C31.graph") \cup
  If(T.blocks # Blocks(T.M) \/ T.roles # <<X, Y>>, "C31.data") \cup
  UNION {MechanismBad(T.mechanisms[i]) : i \in 1..Len(T.mechanisms)}
TraceInit == tid \in 1..Len(Traces) /\ fin = FALSE
Judge == ~fin /\ fin' = TRUE /\ UNCHANGED tid /\ PrintT("VERDICT " \o ToJson(<<tid, Bad>>))
TraceSpec == TraceInit /\ [][Judge]_vars
====
