---- MODULE ParamRules ----
(* What the nuisance parameters compute.  Units are records of sequences:    *)
(* d.cov (rows of numbers), d.exp (0 or 1) and d.rsp; reals are those of Num. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Num, TLC

Treated(d) == Cardinality({i \in 1..Len(d.exp) : d.exp[i] = 1})
Controls(d) == Len(d.exp) - Treated(d)
\* Whether t treated and c control units are enough.
Enough(kind, need, t, c) ==
  CASE kind \in {"aipw", "fd"} -> t >= need /\ c >= need
    [] kind = "two" -> t >= 1 /\ c >= 1
    [] OTHER -> t + c >= 1

Clip(p, lo) == RMin(RMax(p, lo), RSub(1, lo))

\* The doubly robust score, with clipped propensity e.
AipwScore(mu0, mu1, e, ov, x, y) ==
  LET c == Clip(e, ov)
      m == IF x = 1 THEN mu1 ELSE mu0
      w == IF x = 1 THEN RDiv(1, c) ELSE RNeg(RDiv(1, RSub(1, c)))
  IN RAdd(RSub(mu1, mu0), RMul(RSub(y, m), w))

\* The front-door score of a unit.  mu[k][x+1] and p[k][x+1] are E[Y|z_k,x] and
\* P(z_k|x) over the support, mz[x+1] and pz[x+1] the same for the unit's own z.
FdScore(mu, p, p1, ov, mz, pz, x, y) ==
  LET q == RSub(1, p1)
      n == Len(mu)
      first == RMul(RSub(y, mz[x + 1]), RDiv(RSub(Clip(pz[2], ov), Clip(pz[1], ov)), Clip(pz[x + 1], ov)))
      f1 == RSum([k \in 1..n |-> RMul(mu[k][x + 1], RSub(p[k][2], p[k][1]))])
      avg(m) == RAdd(RMul(m[2], p1), RMul(m[1], q))
      f3 == RSum([k \in 1..n |-> RMul(avg(mu[k]), p[k][x + 1])])
      w == IF x = 1 THEN RDiv(1, p1) ELSE RNeg(RDiv(1, q))
  IN RAdd(RAdd(first, f1), RMul(w, RSub(avg(mz), f3)))

\* The front-door effect.
FdEffect(mu, p, p1) ==
  RSum([k \in 1..Len(mu) |-> RMul(RSub(p[k][2], p[k][1]), RAdd(RMul(mu[k][2], p1), RMul(mu[k][1], RSub(1, p1))))])

\* Ridge regression with penalty a: the intercept and the coefficients.
Ridge(X, y, a, intercept) ==
  LET n == Len(X)
      d == Len(X[1])
      Col(j) == [k \in 1..n |-> X[k][j]]
      xb == TLCEval([j \in 1..d |-> IF intercept THEN RMean(Col(j)) ELSE 0])
      yb == IF intercept THEN RMean(y) ELSE 0
      cen == TLCEval([j \in 1..d |-> TLCEval([k \in 1..n |-> RSub(X[k][j], xb[j])])])
      yc == TLCEval([k \in 1..n |-> RSub(y[k], yb)])
      A == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> RAdd(RDot(cen[i], cen[j]), IF i = j THEN a ELSE 0)])])
      b == TLCEval([i \in 1..d |-> RDot(cen[i], yc)])
      w == TLCEval(RSolve(A, b))
  IN <<RSub(yb, RDot(w, xb)), w>>
Linear(m, x) == RAdd(m[1], RDot(m[2], x))

\* Linear regression: the first coordinate of n (D'D + l I)^-1 [x z] y.
RegWeights(D, l) ==
  LET n == Len(D)
      d == Len(D[1])
      A == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |->
             RAdd(RDot([k \in 1..n |-> D[k][i]], [k \in 1..n |-> D[k][j]]), IF i = j THEN l ELSE 0)])])
  \* the first row of the (symmetric) inverse, times n
      e1 == [i \in 1..d |-> IF i = 1 THEN n ELSE 0]
  IN TLCEval(RSolve(A, e1))
RegScore(w, x, y) == RMul(RDot(w, x), y)

Sigmoid(t) == RDiv(1, RAdd(1, RExp(RNeg(t))))
====
