---- MODULE BanditLive ----
(* Liveness: without a sample limit, when the intervals of arms with         *)
(* different true values become exact after Settle updates, every algorithm  *)
(* terminates.                                                               *)
EXTENDS Bandit
CONSTANT Settle
VARIABLE n      \* updates of each arm, at most Settle are counted
LInit == Init /\ n = [a \in 1..K |-> 0] /\ \A a, b \in 1..K : a # b => truth[a] # truth[b]
LPull ==
  /\ Pull
  /\ LET a == MinOf(todo) IN
     /\ n' = [n EXCEPT ![a] = IF @ < Settle THEN @ + 1 ELSE @]
     /\ n[a] = Settle => (lo'[a] = truth[a] /\ hi'[a] = truth[a] /\ est'[a] = truth[a])
LNext == LPull \/ ((StartRound \/ Judge) /\ UNCHANGED n)
\* LUCB breaks ties at random: every arm that can be selected again and again
\* is selected eventually (without this, two arms with the same estimate and
\* upper bound starve one another).
Select(a) == StartRound /\ a \in todo' /\ UNCHANGED n
LiveSpec == /\ LInit /\ [][LNext]_<<vars, n>> /\ WF_<<vars, n>>(LNext)
            /\ \A a \in 1..MaxOf(Ks) : SF_<<vars, n>>(Select(a))
Termination == <>(phase = "done")
====
