---- MODULE Aipw ----
(* Double robustness of the AIPW score: over every population of a finite     *)
(* family, its mean is the effect when the response or the propensity that it  *)
(* uses is right, and clipping is harmless for a right response.               *)
EXTENDS ParamRules
CONSTANTS Means, Guesses, Weights, Overlaps
VARIABLES mu, guess, a, b, w, ov
Z == 1..2
X == {0, 1}
Init ==
  /\ mu \in [Z -> [X -> Means]] /\ guess \in [Z -> [X -> Guesses]]
  /\ a \in [Z -> 1..3] /\ b \in [Z -> 1..3]     \* propensities, in quarters
  /\ w \in [Z -> Weights] /\ ov \in Overlaps
Next == UNCHANGED <<mu, guess, a, b, w, ov>>
Spec == Init /\ [][Next]_<<mu, guess, a, b, w, ov>>
Mean(m, q) ==
  RSum([z \in Z |-> RMul(w[z], RSum([k \in 1..2 |->
    RMul(RDiv(IF k = 1 THEN a[z] ELSE 4 - a[z], 4),
         AipwScore(m[z][0], m[z][1], RDiv(q[z], 4), ov, 2 - k, mu[z][2 - k]))]))])
Effect == RSum([z \in Z |-> RMul(w[z], mu[z][1] - mu[z][0])])
RightResponse == RClose(Mean(mu, b), Effect, "1e-9")
RightPropensity == (\A z \in Z : REq(Clip(RDiv(a[z], 4), ov), RDiv(a[z], 4))) => RClose(Mean(guess, a), Effect, "1e-9")
====
