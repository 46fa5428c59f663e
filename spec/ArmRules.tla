---- MODULE ArmRules ----
(* What an arm has to do with the units that it is given, and what it has to *)
(* publish.  Shared by the design (Arm.tla) and the trace judge (ArmTrace).  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Num

Halves(A, B) == LET d == Cardinality(A) - Cardinality(B) IN d \in {-1, 0, 1}

\* A batch of new units arrives: T, H are the training and held-out folds.
SplitOK(stable, T, H, new, T1, H1) ==
  /\ T1 \cup H1 = T \cup H \cup new
  /\ T1 \cap H1 = {}
  /\ IF stable
     THEN /\ T \subseteq T1 /\ H \subseteq H1
          /\ Halves(T1 \ T, H1 \ H)
     ELSE Halves(T1, H1)

(* ---- numbers: scores is a sequence of reals ---- *)
Ate(scores) == RMean(scores)
VarEst(scores) == RVar(scores)

\* Intervals are pairs <<lower, upper>>.
Vacuous == <<"0.0", "Infinity">>
CutAt0(c, w) == <<RMax("0.0", RSub(c, w)), RAdd(c, w)>>

\* CLT interval after the k-th update.
CltInterval(scores, delta, k) ==
  LET n == Len(scores)
      m == RMean(scores)
      sq == [i \in 1..n |-> LET e == RSub(scores[i], m) IN RMul(e, e)]
      tail == RDiv(delta, 2 * k * k)
  IN CutAt0(RVar(scores), RMul(RNormUpper(tail), RSqrt(RDiv(RVar(sq), n))))

Chi2Interval(scores, delta) ==
  LET n == Len(scores)
      s == RMul(RVar(scores), n - 1)
      h == RDiv(delta, 2)
  IN <<RDiv(s, RChi2Q(RSub(1, h), n - 1)), RDiv(s, RChi2Q(h, n - 1))>>

\* g: scale, tau: bound on the effect, m: burn-in, w: nuisance width.
FiniteInterval(scores, delta, g, tau, m, w) ==
  LET n == Len(scores)
      lam == RMax(g, RMul(8, RMul(g, g)))
      inside == RAdd(RAdd(RDiv(RMul(2, RLn(RDiv(RMul(lam, n), m))), n), "0.5"),
                     RLn(RDiv(4, delta)))
      width == RAdd(RDiv(RMul(RMul("0.625", RAdd(RSqrt(RMul(2, g)), tau)), RSqrt(inside)), RSqrt(n)),
                    RMul(w, w))
  IN IF RLt(n, m) THEN Vacuous ELSE CutAt0(RVar(scores), width)

\* Percentile interval of B bootstrap variances.
DefaultB(delta) == RCeil(RDiv(4, delta))
BootLow(B, delta) == RFloor(RMul(RDiv(delta, 2), B)) + 1
BootHigh(B, delta) == RCeil(RMul(RSub(1, RDiv(delta, 2)), B))
BootInterval(vars, delta) ==
  LET s == RSort(vars) B == Len(vars)
  IN <<s[BootLow(B, delta)], s[BootHigh(B, delta)]>>

WellFormed(lo, est, hi) == RLe(0, lo) /\ RLe(lo, est) /\ RLe(est, hi)
====
