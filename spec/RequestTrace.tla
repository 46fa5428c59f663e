---- MODULE RequestTrace ----
(* Judges real requests.  ev: r (the request), exc, before and after (what    *)
(* the arms show), kept (the argument list is unchanged).                     *)
EXTENDS RequestRules, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, fin
vars == <<tid, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
EvBad(e) ==
  (IF ValidRequest(e.r) THEN If(e.exc # "", "C11.refused")
   ELSE If(e.exc = "", "C11.accepted") \cup If(e.exc # "" /\ e.exc # "ValueError", "C11.error")) \cup
  If(e.before # e.after \/ ~e.kept, "C11.effect")
Bad == UNION {EvBad(T.ev[i]) : i \in 1..Len(T.ev)}
TraceInit == tid \in 1..Len(Traces) /\ fin = FALSE
Judge == ~fin /\ fin' = TRUE /\ UNCHANGED tid /\ PrintT("VERDICT " \o ToJson(<<tid, Bad>>))
TraceSpec == TraceInit /\ [][Judge]_vars
====
