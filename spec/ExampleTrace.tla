---- MODULE ExampleTrace ----
(* Judges real example models.  A trace has kind, exc, P (what the model      *)
(* reports: all parameters, means and variances), cols (of the covariates),   *)
(* and samples: n, cells (per outcome: count, mean and var of the response),  *)
(* mean and var (of every variable), odd (units with values that no outcome   *)
(* has), and effect (drawn with m units; "" if it was not drawn).             *)
EXTENDS ExampleRules, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, fin
vars == <<tid, fin>>
T == Traces[tid]
K == T.kind
P == T.P
If(c, t) == IF c THEN {t} ELSE {}
Near(a, b) == RClose(a, b, "1e-9")
Within(a, b, sd) == RFinite(a) /\ RLe(RAbs(RSub(a, b)), RAdd("1e-9", RMul("6.5", sd)))
MuKey(v) == "mu_" \o v
VarKey(v) == "var_" \o v
ReportBad ==
  If(\E v \in Variables(K) : ~Near(P[MuKey(v)], MeanOf(K, P, v)), "C28.mean") \cup
  If(\E v \in Variables(K) : ~Near(P[VarKey(v)], VarianceOf(K, P, v)), "C28.variance") \cup
  If(~Near(P.tau, Effect(K, P)), "C28.effect")
CellBad(s) ==
  LET w == Weights(K, P, 2)
      m == Means(K, P) IN
  If(\E i \in 1..Len(w) : ~Within(s.cells[i].count, RMul(s.n, w[i]), RSqrt(RMul(s.n, RMul(w[i], RSub(1, w[i]))))), "C28.frequencies") \cup
  If(\E i \in 1..Len(w) : ~Within(s.cells[i].mean, m[i], RDiv(1, RSqrt(RMax(1, s.cells[i].count)))), "C28.response") \cup
  If(\E i \in 1..Len(w) : ~Within(s.cells[i].var, 1, RSqrt(RDiv(2, RMax(1, s.cells[i].count)))), "C28.noise")
\* the pooled moments, also against the reported ones
MomentBad(s) ==
  If(\E v \in Variables(K) : ~Within(s.mean[v], P[MuKey(v)], RSqrt(RDiv(VarianceOf(K, P, v), s.n))), "C28.mean")
SampleBad(s) ==
  If(s.odd # 0, "C28.support") \cup CellBad(s) \cup MomentBad(s) \cup
  (IF s.effect = "" THEN {} ELSE
   If(~Within(s.effect, P.tau, RSqrt(RDiv(RAdd(DoVariance(K, P, 0), DoVariance(K, P, 1)), s.m))), "C28.effect"))
Bad == IF T.exc # "" THEN {"C28.exception"} ELSE
       If(T.cols # IF K = "back" THEN 1 ELSE 2, "C28.columns") \cup
       (IF T.cols # IF K = "back" THEN 1 ELSE 2 THEN {} ELSE ReportBad \cup UNION {SampleBad(T.samples[i]) : i \in 1..Len(T.samples)})
TraceInit == tid \in 1..Len(Traces) /\ fin = FALSE
Judge == ~fin /\ fin' = TRUE /\ UNCHANGED tid /\ PrintT("VERDICT " \o ToJson(<<tid, Bad>>))
TraceSpec == TraceInit /\ [][Judge]_vars
====
