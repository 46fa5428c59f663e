---- MODULE TwinTrace ----
(* Two lives, step by step: that of an object after a reset (a), and that of a *)
(* new object with the same inputs and random seed (b).  Every step is what    *)
(* was observed, written out; the specification (Twin, LikeNew) has no         *)
(* behaviour in which they differ.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, bad, fin
vars == <<tid, l, bad, fin>>
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ fin = FALSE
             /\ bad = (IF T.exc # "" THEN {"C10.reset"} ELSE {}) \cup (IF Len(T.a) # Len(T.b) THEN {"C10.length"} ELSE {})
Step ==
  /\ l <= Len(T.a) /\ l <= Len(T.b)
  /\ bad' = bad \cup (IF T.a[l] # T.b[l] THEN {"C10." \o T.what} ELSE {})
  /\ l' = l + 1 /\ UNCHANGED <<tid, fin>>
Finish ==
  /\ (l > Len(T.a) \/ l > Len(T.b)) /\ ~fin /\ fin' = TRUE
  /\ PrintT("VERDICT " \o ToJson(<<tid, bad>>))
  /\ UNCHANGED <<tid, l, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
====
