---- MODULE BanditTwin ----
(* C29: runs of several algorithms on the same dataset with the same arms.   *)
(* The k-th interval and estimate of an arm is the same in every run that    *)
(* samples it k times.  Each trace is a sequence of runs, each a sequence of *)
(* updates; seen[a] is the longest sequence of published values so far.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Traces == JsonDeserialize("traces.json")
VARIABLES tid, r, l, n, seen, bad, fin
vars == <<tid, r, l, n, seen, bad, fin>>
T == Traces[tid]
Arms == 1..T.K

Init ==
  /\ tid \in 1..Len(Traces) /\ r = 1 /\ l = 1 /\ bad = {} /\ fin = FALSE
  /\ n = [a \in 1..Traces[tid].K |-> 0]
  /\ seen = [a \in 1..Traces[tid].K |-> <<>>]

Step ==
  /\ r <= Len(T.runs) /\ l <= Len(T.runs[r].ev)
  /\ LET e == T.runs[r].ev[l]
         v == <<e.lo, e.est, e.hi>>
         k == n[e.a] + 1 IN
     /\ n' = [n EXCEPT ![e.a] = k]
     /\ IF k <= Len(seen[e.a])
        THEN /\ bad' = IF seen[e.a][k] # v THEN bad \cup {"C29.differs"} ELSE bad
             /\ seen' = seen
        ELSE seen' = [seen EXCEPT ![e.a] = Append(@, v)] /\ bad' = bad
  /\ l' = l + 1
  /\ UNCHANGED <<tid, r, fin>>
NextRun ==
  /\ r <= Len(T.runs) /\ l = Len(T.runs[r].ev) + 1
  /\ bad' = IF T.runs[r].exc # "" THEN bad \cup {"EXC"} ELSE bad
  /\ r' = r + 1 /\ l' = 1 /\ n' = [a \in Arms |-> 0]
  /\ UNCHANGED <<tid, seen, fin>>
Finish ==
  /\ r = Len(T.runs) + 1 /\ ~fin /\ fin' = TRUE
  /\ PrintT("VERDICT " \o ToJson(<<tid, bad>>))
  /\ UNCHANGED <<tid, r, l, n, seen, bad>>
TraceSpec == Init /\ [][Step \/ NextRun \/ Finish]_vars
====
