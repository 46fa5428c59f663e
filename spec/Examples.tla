---- MODULE Examples ----
(* The two example models on a grid of parameters: their effects are          *)
(* identified by adjusting for Z (back door) and through Z (front door), and  *)
(* not by comparing treated with control units.                               *)
EXTENDS ExampleRules
CONSTANTS Ps, As, Bs, Cs   \* strings
VARIABLES kind, P
vars == <<kind, P>>
Init == \/ /\ kind = "back"
           /\ P \in [mu_z : Ps, alpha : As, beta : Bs, tau : {"10", "-3"}]
        \/ /\ kind = "front"
           /\ P \in [mu_u : Ps, alpha_1 : As, alpha_2 : Bs, beta : Bs, gamma : Cs]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
W == Weights(kind, P, 2)
O == Outcomes(kind)
RECURSIVE SumIf(_, _)
\* the sum of the numbers f(i) of the outcomes i in S
SumIf(f, S) == RSum([i \in 1..Len(O) |-> IF i \in S THEN f[i] ELSE R(0)])
Prob(S) == SumIf(W, S)
CondMean(S) == RDiv(SumIf([i \in 1..Len(O) |-> RMul(W[i], Mean(kind, P, O[i]))], S), Prob(S))
Where(v, a) == {i \in 1..Len(O) : O[i][v] = a}
Sure == RClose(RSum(W), 1, "1e-12") /\ \A i \in 1..Len(O) : RLe(0, W[i])
BackDoor == kind = "back" =>
  RClose(RSum(<<RMul(Prob(Where("z", 0)), RSub(CondMean(Where("z", 0) \cap Where("x", 1)), CondMean(Where("z", 0) \cap Where("x", 0)))),
                RMul(Prob(Where("z", 1)), RSub(CondMean(Where("z", 1) \cap Where("x", 1)), CondMean(Where("z", 1) \cap Where("x", 0))))>>),
         Effect(kind, P), "1e-9")
\* sum_z (P(z|x=1) - P(z|x=0)) sum_x P(x) E[Y|x,z]
Given(v, a, w, b) == RDiv(Prob(Where(v, a) \cap Where(w, b)), Prob(Where(w, b)))
FrontTerm(z) == RMul(RSub(Given("z", z, "x", 1), Given("z", z, "x", 0)),
                     RAdd(RMul(Prob(Where("x", 0)), CondMean(Where("x", 0) \cap Where("z", z))),
                          RMul(Prob(Where("x", 1)), CondMean(Where("x", 1) \cap Where("z", z)))))
FrontDoor == kind = "front" => RClose(RAdd(FrontTerm(0), FrontTerm(1)), Effect(kind, P), "1e-9")
\* the documented effects
Stated == RClose(Effect(kind, P), IF kind = "back" THEN P.tau ELSE RMul(P.gamma, RSub(Logistic(P.beta), "0.5")), "1e-9")
\* what the covariance of X and Z contributes to the variance of Y
Total == kind = "back" =>
  RClose(VarianceOf(kind, P, "y"),
         RSum(<<1, RMul(RMul(P.tau, P.tau), VarianceOf(kind, P, "x")), RMul(RMul(P.beta, P.beta), VarianceOf(kind, P, "z")),
                RMul(RMul(2, RMul(P.tau, P.beta)), RMul(P.alpha, VarianceOf(kind, P, "z")))>>), "1e-9")
\* Confounding matters: without adjustment the answer is wrong somewhere.
Naive == RSub(CondMean(Where("x", 1)), CondMean(Where("x", 0)))
Confounded == (kind = "back" /\ ~REq(P.alpha, 0) /\ ~REq(P.beta, 0)) => ~RClose(Naive, Effect(kind, P), "1e-9")
====
