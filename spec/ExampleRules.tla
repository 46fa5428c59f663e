---- MODULE ExampleRules ----
(* The two example models as discrete causal models.  In an outcome all        *)
(* variables but the response have a value; the response is normal with        *)
(* variance 1 around its mean in the outcome.  P is the record of parameters.  *)
(*   back:  Z -> X, Z -> Y, X -> Y;   front:  U -> X -> Z -> Y, U -> Y          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Num
B == {0, 1}
\* sequences, so that sums have an order
BackOutcomes == <<[z |-> 0, x |-> 0], [z |-> 0, x |-> 1], [z |-> 1, x |-> 0], [z |-> 1, x |-> 1]>>
FrontOutcomes == [i \in 1..8 |-> [u |-> (i - 1) \div 4, x |-> ((i - 1) \div 2) % 2, z |-> (i - 1) % 2]]
Outcomes(kind) == IF kind = "back" THEN BackOutcomes ELSE FrontOutcomes
Logistic(v) == RDiv(1, RAdd(1, RExp(RNeg(v))))
Bern(p, v) == IF v = 1 THEN p ELSE RSub(1, p)
\* The probability of the treatment given its parents, and under an intervention.
Treat(kind, P, o, do) ==
  IF do # 2 THEN (IF o.x = do THEN R(1) ELSE R(0))
  ELSE IF kind = "back" THEN Bern(RAdd("0.5", RMul(P.alpha, o.z)), o.x)
  ELSE Bern(Logistic(RMul(P.alpha_1, o.u)), o.x)
Weight(kind, P, o, do) ==
  IF kind = "back" THEN RMul(Bern(P.mu_z, o.z), Treat(kind, P, o, do))
  ELSE RMul(Bern(P.mu_u, o.u), RMul(Treat(kind, P, o, do), Bern(Logistic(RMul(P.beta, o.x)), o.z)))
\* The mean of the response in an outcome.
Mean(kind, P, o) ==
  IF kind = "back" THEN RAdd(RMul(P.tau, o.x), RMul(P.beta, o.z))
  ELSE RAdd(RMul(P.gamma, o.z), RMul(P.alpha_2, o.u))
Weights(kind, P, do) == [i \in 1..Len(Outcomes(kind)) |-> Weight(kind, P, Outcomes(kind)[i], do)]
E1(kind, P, f, do) == RDot(Weights(kind, P, do), f)
VarOf(kind, P, f, do) == LET m == E1(kind, P, f, do) IN E1(kind, P, [i \in 1..Len(f) |-> RMul(RSub(f[i], m), RSub(f[i], m))], do)
Values(kind, v) == [i \in 1..Len(Outcomes(kind)) |-> R(Outcomes(kind)[i][v])]
Means(kind, P) == [i \in 1..Len(Outcomes(kind)) |-> Mean(kind, P, Outcomes(kind)[i])]
MeanOf(kind, P, v) == IF v = "y" THEN E1(kind, P, Means(kind, P), 2) ELSE E1(kind, P, Values(kind, v), 2)
VarianceOf(kind, P, v) == IF v = "y" THEN RAdd(1, VarOf(kind, P, Means(kind, P), 2)) ELSE VarOf(kind, P, Values(kind, v), 2)
Effect(kind, P) == RSub(E1(kind, P, Means(kind, P), 1), E1(kind, P, Means(kind, P), 0))
DoVariance(kind, P, x) == RAdd(1, VarOf(kind, P, Means(kind, P), x))
Variables(kind) == IF kind = "back" THEN {"z", "x", "y"} ELSE {"u", "x", "z", "y"}
====
