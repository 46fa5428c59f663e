---- MODULE Scm ----
(* A structural causal model in use: samples are drawn one variable at a      *)
(* time; computing the effect replaces the mechanism of the treatment, draws  *)
(* two worlds, and restores it.  Any mechanism may fail at any time.          *)
EXTENDS ScmRules, TLC
CONSTANTS NV,        \* number of variables
          MaxOps,    \* operations per model
          Ordered,   \* whether all orders of the parents are explored
          Skips      \* deviations: "restore" (only after success), "check", "share", "ancestors"
VARIABLES m, mech, phase, pos, world, got, calls, fst, res, ops
vars == <<m, mech, phase, pos, world, got, calls, fst, res, ops>>
Vs == 1..NV
Asc(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]}
ParentSeqs == IF Ordered THEN UNION {Perms(S) : S \in SUBSET Vs} ELSE {Asc(S) : S \in SUBSET Vs}
Id == [i \in Vs |-> i]
Covs == {<<1>>, Id, [i \in Vs |-> NV + 1 - i]}
Models == [order : {Id}, par : [Vs -> ParentSeqs], treat : Vs, resp : Vs, cov : Covs]
None == <<>>
Init == /\ m \in Models /\ m.treat # m.resp
        /\ mech = [v \in Vs |-> "own"] /\ phase = "idle" /\ pos = 1 /\ world = 0
        /\ got = [v \in Vs |-> None] /\ calls = <<>> /\ fst = None /\ res = None /\ ops = 0

\* Starts to draw a world.
Begin(ph, x) ==
  /\ phase' = ph /\ pos' = 1 /\ world' = world + 1
  /\ got' = IF "share" \in Skips /\ ph = "control"
            THEN [v \in Vs |-> IF v = m.treat THEN None ELSE got[v]] ELSE [v \in Vs |-> None]
  /\ mech' = [mech EXCEPT ![m.treat] = x]
Generate == /\ phase = "idle" /\ ops < MaxOps /\ ops' = ops + 1
            /\ Begin("gen", "own") /\ res' = None /\ calls' = <<>> /\ UNCHANGED <<m, fst>>
Effect == /\ phase = "idle" /\ ops < MaxOps /\ ops' = ops + 1
          /\ Begin("treated", "1") /\ res' = None /\ calls' = <<>> /\ UNCHANGED <<m, fst>>

Restore == mech' = [mech EXCEPT ![m.treat] = "own"]
Stop(r) == /\ phase' = "idle" /\ res' = r
           /\ (IF "restore" \in Skips /\ r[1] \notin {"data", "effect"} THEN UNCHANGED mech ELSE Restore)
           /\ UNCHANGED <<m, pos, world, got, calls, ops, fst>>
Drawing == phase \in {"gen", "treated", "control"} /\ pos <= NV
Draw ==
  /\ Drawing
  /\ LET v == m.order[pos] IN
     IF \E i \in 1..Len(m.par[v]) : got[m.par[v][i]] = None /\ "check" \notin Skips
     THEN Stop(<<"rejected">>)
     ELSE /\ got' = [got EXCEPT ![v] =
                      IF got[v] # None THEN got[v]
                      ELSE IF mech[v] # "own" THEN <<"set", mech[v], world>>
                      ELSE <<"draw", v, world, [i \in 1..Len(m.par[v]) |-> got[m.par[v][i]]]>>]
          /\ calls' = IF mech[v] = "own" THEN Append(calls, <<v, world>>) ELSE calls
          /\ pos' = pos + 1
          /\ UNCHANGED <<m, mech, phase, world, fst, res, ops>>
Fail == Drawing /\ mech[m.order[pos]] = "own" /\ Stop(<<"failed">>)
Finish ==
  /\ pos = NV + 1
  /\ CASE phase = "gen" -> Stop(<<"data", [i \in 1..Len(m.cov) |-> got[m.cov[i]]], got[m.treat], got[m.resp]>>)
       [] phase = "treated" -> /\ fst' = got[m.resp] /\ Begin("control", "0") /\ UNCHANGED <<m, calls, res, ops>>
       [] phase = "control" -> Stop(<<"effect", fst, got[m.resp]>>)
       [] OTHER -> FALSE
Next == Generate \/ Effect \/ Draw \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars

\* C22
Once == \A i, j \in 1..Len(calls) : i # j => calls[i] # calls[j]
Ancestral == phase = "gen" => \A v \in Vs : got[v] # None => got[v] = Sample(m, v, world, "own")
DataOK == res # None /\ res[1] = "data" =>
            /\ res[2] = [i \in 1..Len(m.cov) |-> Sample(m, m.cov[i], world, "own")]
            /\ res[3] = Sample(m, m.treat, world, "own") /\ res[4] = Sample(m, m.resp, world, "own")
RejectedOK == /\ res = <<"rejected">> => ~Topological(m)
              /\ res # None /\ res[1] \in {"data", "effect"} => Topological(m)
\* C23
EffectOK == res # None /\ res[1] = "effect" =>
              /\ res[2] = Sample(m, m.resp, world - 1, "1")
              /\ res[3] = Sample(m, m.resp, world, "0")
OwnUnused == res # None /\ res[1] = "effect" => \A i \in 1..Len(calls) : calls[i][1] # m.treat
Restored == phase = "idle" => \A v \in Vs : mech[v] = "own"
OthersOwn == \A v \in Vs : v # m.treat => mech[v] = "own"
====
