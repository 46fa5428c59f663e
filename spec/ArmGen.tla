---- MODULE ArmGen ----
(* Scripts of operations for the real arms, from the behaviours of Arm.    *)
EXTENDS Arm
VARIABLE script
GInit == Init /\ ~fickle /\ script = <<>>
GNext ==
  /\ Next
  /\ script' = Append(script,
       IF last' = "update" THEN <<"u", given' - given>>
       ELSE IF last' = "reset" THEN <<"r", 0>> ELSE <<"i", 0>>)
GSpec == GInit /\ [][GNext]_<<vars, script>>
\* There are too many splits to enumerate, and one is enough for a script.
OneSplit(b) == {IF stable THEN train \cup (given + 1 .. given + (b - given + 1) \div 2)
                ELSE 1 .. (b + 1) \div 2}
EmitOK == ops = MaxOps => PrintT("SCRIPT " \o ToString(script))
====
