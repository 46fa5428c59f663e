---- MODULE BanditGen ----
(* Prints behaviours of Bandit.tla, as scripts that are replayed against the *)
(* real algorithms: what each arm publishes at its first, second, ... pull.  *)
EXTENDS Bandit, Json
VARIABLE tape
GInit == Init /\ tape = <<>>
Script == [alg |-> alg, K |-> K, tol |-> tol, limit |-> limit, truth |-> truth, tape |-> tape]
GNext ==
  /\ phase # "done"
  /\ Next
  /\ tape' = IF phase = "pull"
             THEN LET a == MinOf(todo) IN Append(tape, <<a, lo'[a], est'[a], hi'[a]>>)
             ELSE tape
  /\ (phase' = "done") =>
       PrintT("SCRIPT " \o ToJson([Script EXCEPT !.tape = tape']))
GSpec == GInit /\ [][GNext]_<<vars, tape>>
MaxTape == Len(tape) <= 14
====
