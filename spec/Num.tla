---- MODULE Num ----
(* Real numbers.  TLC has none, so they are written as decimal strings and   *)
(* TLC evaluates the operators below in double precision with Num.java.      *)
(* Arguments may also be integers.                                           *)
LOCAL Any == CHOOSE x \in STRING : TRUE
R(a) == Any                 \* an integer as a real
RAdd(a, b) == Any
RSub(a, b) == Any
RMul(a, b) == Any
RDiv(a, b) == Any
RNeg(a) == Any
RAbs(a) == Any
RSqrt(a) == Any
RLn(a) == Any
RExp(a) == Any
RMax(a, b) == Any
RMin(a, b) == Any
RLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
RLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
REq(a, b) == CHOOSE x \in BOOLEAN : TRUE
RFinite(a) == CHOOSE x \in BOOLEAN : TRUE
RIsNaN(a) == CHOOSE x \in BOOLEAN : TRUE
RClose(a, b, tol) == CHOOSE x \in BOOLEAN : TRUE   \* |a-b| <= tol*max(1,|a|,|b|)
RNear(a, b, tol, f) == CHOOSE x \in BOOLEAN : TRUE   \* |a-b| <= tol*max(f,|a|,|b|)
RFloor(a) == 0
RCeil(a) == 0
RSum(s) == Any              \* sum of a sequence
RDot(s, t) == Any           \* inner product
RMean(s) == Any
RVar(s) == Any              \* population variance
RSort(s) == s
RSolve(A, y) == y           \* the x with A x = y, A a sequence of rows
RLogDet(A) == Any            \* ln det A, A positive definite
REigMin(A) == Any            \* lowest eigenvalue of A, A symmetric
RNormUpper(p) == Any        \* the z with P(N(0,1) > z) = p
RChi2Q(p, df) == Any        \* quantile of chi squared
====
