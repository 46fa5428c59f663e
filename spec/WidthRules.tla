---- MODULE WidthRules ----
(* The widths of the confidence sequences of the nuisance parameters: the      *)
(* mixture bound of regularised linear regression on the design X (a sequence  *)
(* of rows), propagated to the score.  delta: error probability, g: subGaussian *)
(* parameter, rho: parameter of the mixture, ov: overlap bound.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Num, TLC
Gram(X) ==
  LET d == Len(X[1]) n == Len(X)
      col == TLCEval([j \in 1..d |-> TLCEval([k \in 1..n |-> X[k][j]])])
  IN TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> RDot(col[i], col[j])])])
Plus(V, g, rho) ==   \* g V + rho I
  TLCEval([i \in 1..Len(V) |-> TLCEval([j \in 1..Len(V) |-> RAdd(RMul(g, V[i][j]), IF i = j THEN rho ELSE "0.0")])])
Trace(V) == RSum([i \in 1..Len(V) |-> V[i][i]])
\* The units do not span all directions (or nearly not).
Degenerate(V) == RLe(REigMin(V), RMul("1e-11", Trace(V)))
\* What the data contribute, and what has to be exceeded.
Excess(V, delta, g, rho) ==
  RMul(g, RSub(RLogDet(Plus(V, g, rho)), RAdd(RMul(Len(V), RLn(rho)), RMul(2, RLn(delta)))))
Radius(V, delta, g, rho) ==
  LET lam == REigMin(V)
      w == RDiv(RMul(lam, lam), RAdd(lam, RDiv(rho, g)))
      e == Excess(V, delta, g, rho)
  IN IF RLe(e, 0) THEN "Infinity" ELSE RDiv(RSqrt(e), RSqrt(w))
\* The bound on the frequencies of the treatment and the mediator.
Boundary(n, delta, rho) ==
  RSqrt(RMul(RMul(RDiv(1, n), RAdd("0.25", RDiv(rho, n))),
             RLn(RDiv(RAdd(RDiv(n, 4), rho), RMul(RMul(delta, delta), rho)))))
AipwWidth(X, delta, g, rho, ov) == RMul(Radius(Gram(X), delta, g, rho), RSub(RDiv(1, ov), 1))
\* The design of the front door contains the treatment.
FdWidth(X, delta, g, rho, ov) ==
  LET m == Radius(Gram(X), RDiv(delta, 3), g, rho)
      b == Boundary(Len(X), RDiv(delta, 9), rho)
  IN RAdd(RMul(m, RSub(RDiv(2, ov), 1)), RMul(b, RSub(RDiv(1, ov), 1)))
Width(kind, X, delta, g, rho, ov) ==
  IF kind = "aipw" THEN AipwWidth(X, delta, g, rho, ov) ELSE FdWidth(X, delta, g, rho, ov)
====
