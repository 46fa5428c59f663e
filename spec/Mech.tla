---- MODULE Mech ----
(* How a building block computes: term by term into an accumulator that is    *)
(* not the storage of any argument; and unit by unit through the mechanism    *)
(* that the unit's own parent selects.                                        *)
EXTENDS MechRules, TLC
CONSTANTS Units, Fns, Means,
          Values, Coefs,   \* shifted by 1 and 2, as configurations have no negative numbers
          Skips   \* "alias": the accumulator is the array that the first function has returned
VARIABLES parents, betas, fns, mean,    \* the arguments
          before,                       \* what they were
          acc, i,                       \* the sum so far, and the number of terms in it
          kept                          \* an array that belongs to the caller's first function
vars == <<parents, betas, fns, mean, before, acc, i, kept>>
Init == /\ parents \in [1..2 -> [1..Units -> {<<v - 1>> : v \in Values}]] \cup
                       {<<p, q>> : p \in [1..Units -> {<<v - 1, w - 1>> : v \in Values, w \in Values}], q \in [1..Units -> {<<v - 1>> : v \in Values}]}
        /\ betas \in {<<[d \in 1..Len(parents[1][1]) |-> <<c[d] - 2>>], <<<<c[3] - 2>>>>>> : c \in [1..3 -> Coefs]}
        /\ fns \in [1..2 -> Fns] /\ mean \in {<<x>> : x \in Means}
        /\ before = <<parents, betas>> /\ i = 0 /\ acc = <<>>
        /\ kept = [j \in 1..Units |-> R(7)]
F(k, j) == Fn(fns[k], Term(parents, betas, k, j, 1))
Add == /\ i < Len(parents) /\ i' = i + 1
       /\ acc' = [j \in 1..Units |-> IF i = 0 THEN F(1, j) ELSE RAdd(acc[j], F(i + 1, j))]
       /\ kept' = IF "alias" \in Skips /\ fns[1] = "seven" THEN acc' ELSE kept
       /\ UNCHANGED <<parents, betas, fns, mean, before>>
Noise == /\ i = Len(parents) /\ i' = i + 1
         /\ acc' = [j \in 1..Units |-> RAdd(acc[j], mean[1])]
         /\ UNCHANGED <<parents, betas, fns, mean, before, kept>>
Next == Add \/ Noise
Spec == Init /\ [][Next]_vars
Documented == i = Len(parents) + 1 => \A j \in 1..Units : Near(acc[j], Sum(parents, betas, fns, mean, j, 1))
Untouched == <<parents, betas>> = before
KeptOK == \A j \in 1..Units : Near(kept[j], 7)
\* scenarios for the real code
Emit == i = 0 => PrintT("SCRIPT " \o ToString(<<parents, betas, fns, mean>>))
EmitSpec == Init /\ [][UNCHANGED vars]_vars
====
