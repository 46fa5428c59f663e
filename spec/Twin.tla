---- MODULE Twin ----
(* Reset of composite objects.  A bandit algorithm is made of arms, and these  *)
(* of nuisance parameters and data; every use changes some of the parts, and a *)
(* use that fails may do so half way.  What parts hold is abstracted to the    *)
(* set of uses that it depends on.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Parts, Uses, MaxOps,
          Skips          \* what a reset forgets to reset; {} for the real thing
VARIABLES dep,           \* dep[p]: the uses (numbers) that part p depends on
          log            \* the operations so far
vars == <<dep, log>>
Init == dep = [p \in Parts |-> {}] /\ log = <<>>
Use(u) ==
  /\ \E S \in (SUBSET Parts) \ {{}} : dep' = [p \in Parts |-> IF p \in S THEN dep[p] \cup {Len(log) + 1} ELSE dep[p]]
  /\ log' = Append(log, u)
Reset ==
  /\ dep' = [p \in Parts |-> IF p \in Skips THEN dep[p] ELSE {}]
  /\ log' = Append(log, "reset")
Next == Len(log) < MaxOps /\ (Reset \/ \E u \in Uses : Use(u))
Spec == Init /\ [][Next]_vars
\* Nothing depends on what happened before the last reset.
Since == {i \in 1..Len(log) : \A j \in i..Len(log) : log[j] # "reset"}
LikeNew == \A p \in Parts : dep[p] \subseteq Since
\* Scripts: a history, a reset and something after it.
AnyUse == [p \in Parts |-> {}]
EmitOK == (Len(log) = MaxOps /\ \E i \in 1..MaxOps - 1 : log[i] = "reset" /\ log[MaxOps] # "reset")
          => PrintT("SCRIPT " \o ToString(log))
====
