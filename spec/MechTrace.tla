---- MODULE MechTrace ----
(* Judges calls of the real building blocks.  Common fields: kind, n, out      *)
(* (rows), nd (number of dimensions of the result), args (whether the          *)
(* arguments are unchanged), exc, valid (whether the call is in the documented *)
(* range).                                                                     *)
EXTENDS MechRules, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, fin
vars == <<tid, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
N(e) == e.n

\* linear, transformed linear
SumBad(e) ==
  If(~ShapeOK(e.out, e.n, Len(e.mean)) \/ e.nd # e.wantnd, "C24.shape") \cup
  (IF ~ShapeOK(e.out, e.n, Len(e.mean)) THEN {} ELSE
   If(\E j \in 1..e.n : \E c \in 1..Len(e.mean) :
        ~Near(e.out[j][c], Sum(e.parents, e.betas, e.fns, e.mean, j, c)), "C24.value"))
SeBad(e) ==
  If(~ShapeOK(e.out, e.n, Len(e.mean)) \/ e.nd # e.wantnd, "C24.shape") \cup
  (IF ~ShapeOK(e.out, e.n, Len(e.mean)) THEN {} ELSE
   If(\E j \in 1..e.n : LET s == Structural(e.f, Row(e.parents, j))
                        IN \E c \in 1..Len(e.mean) : ~Near(e.out[j][c], RAdd(s[c], e.mean[c])), "C24.value"))
AddBad(e) ==
  If(~ShapeOK(e.out, e.n, Len(e.mean)) \/ e.nd # e.wantnd, "C24.shape") \cup
  (IF ~ShapeOK(e.out, e.n, Len(e.mean)) THEN {} ELSE
   If(\E j \in 1..e.n : \E c \in 1..Len(e.mean) : ~Near(e.out[j][c], RAdd(e.parents[1][j][c], e.mean[c])), "C24.value"))
DetBad(e) == If(~ShapeOK(e.out, e.n, 1) \/ e.nd # 1, "C24.shape") \cup
             If(\E j \in 1..Len(e.out) : \E c \in 1..Len(e.out[j]) : ~REq(e.out[j][c], e.value), "C24.value")

\* Bernoulli with parameter sigmoid(p): certain when p is far from 0.
Certain(p, x) == /\ RLe("40", p) => REq(x, 1)
                 /\ RLe(p, "-40") => REq(x, 0)
                 /\ REq(x, 0) \/ REq(x, 1)
Sigmoid(p) == RDiv(1, RAdd(1, RExp(RNeg(p))))
LogBad(e) ==
  If(Len(e.out) # e.n \/ e.nd # 1, "C24.shape") \cup
  (IF Len(e.out) # e.n THEN {} ELSE
   If(\E j \in 1..e.n : ~Certain(RSum([i \in 1..Len(e.parents) |-> Term(e.parents, e.betas, i, j, 1)]), e.out[j][1]),
      "C24.logistic")) \cup
  If(\E k \in 1..Len(e.seen) : e.seen[k] # e.parents, "C24.parents")

\* categorical: calls are the rows (distribution, arguments, value) that were drawn
Select(e, j) ==
  {k \in 1..Len(e.calls) : /\ e.calls[k].d = e.index[j] /\ e.calls[k].v = e.out[j]
                           /\ e.calls[k].args = Row(e.parents, j)}
CatBad(e) ==
  If(Len(e.out) # e.n, "C24.shape") \cup
  (IF Len(e.out) # e.n THEN {} ELSE
   If(\E j \in 1..e.n : Select(e, j) = {}, "C24.select") \cup
   If(\E j, k \in 1..e.n : j # k /\ e.out[j] = e.out[k], "C24.independent") \cup
   If(Len(e.calls) # e.n, "C24.draws"))

\* linear data: X beta + tau T + noise
LinBad(e) ==
  If(Len(e.noise) # 1, "C24.noise") \cup
  If(~ShapeOK(e.x, e.n, e.p) \/ Len(e.t) # e.n \/ Len(e.y) # e.n, "C24.shape") \cup
  (IF ~ShapeOK(e.x, e.n, e.p) \/ Len(e.t) # e.n \/ Len(e.y) # e.n \/ Len(e.noise) # 1 THEN {} ELSE
   If(\E j \in 1..e.n : ~Near(e.y[j], RAdd(RAdd(RDot(e.x[j], e.beta), RMul(e.tau, e.t[j])), e.noise[1][j])), "C24.response") \cup
   If(\E j \in 1..e.n : ~Certain(RDot(e.x[j], e.gamma), e.t[j]), "C24.treatment"))

\* Moments of many draws, with room for chance (more than six standard errors).
Within(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
StatBad(e) ==
  If(\E c \in 1..Len(e.mean) : ~Within(e.m[c], e.mean[c], RMul("0.07", RMax("0.05", RSqrt(e.cov[c][c])))), "C24.noisemean") \cup
  If(\E c, d \in 1..Len(e.mean) :
       ~Within(e.s[c][d], e.cov[c][d], RMul("0.12", RSqrt(RMul(e.cov[c][c], e.cov[d][d])))), "C24.noisecov") \cup
  If(\E c \in 1..Len(e.mean) : ~RLe(RAbs(e.lag[c]), "0.07"), "C24.noiseunits") \cup
  If(~RLe(e.auto, "0.2") \/ e.repeats > e.n \div 100, "C24.noiserepeats")
\* Frequencies of treatment in cells in which the parameter is constant.
FreqBad(e) ==   \* seven standard errors, and nothing by chance where a treatment is certain
  If(~RLe(e.auto, "0.2"), "C24.treatmentrepeats") \cup
  If(\E k \in 1..Len(e.cells) :
       LET s == Sigmoid(e.cells[k].p)
       IN ~Within(e.cells[k].freq, s, RAdd("1e-9", RMul(7, RSqrt(RDiv(RMul(s, RSub(1, s)), e.cells[k].n))))), "C24.frequency")

Bad(e) ==
  IF ~e.valid THEN If(e.exc # "ValueError", "C11.accepted") \cup If(~e.args, "C11.effect")
  ELSE IF e.exc # "" THEN {"C24.exception", "C11.refused"}
  ELSE If(~e.args, "C24.arguments") \cup
       CASE e.kind \in {"lin", "tr"} -> SumBad(e)
         [] e.kind = "se" -> SeBad(e)
         [] e.kind = "add" -> AddBad(e)
         [] e.kind = "det" -> DetBad(e)
         [] e.kind = "log" -> LogBad(e)
         [] e.kind = "cat" -> CatBad(e)
         [] e.kind = "lindata" -> LinBad(e)
         [] e.kind = "stat" -> StatBad(e)
         [] e.kind = "freq" -> FreqBad(e)
         [] OTHER -> {}

TraceInit == tid \in 1..Len(Traces) /\ fin = FALSE
Judge == /\ ~fin /\ fin' = TRUE /\ UNCHANGED tid
         /\ PrintT("VERDICT " \o ToJson(<<tid, Bad(T)>>))
TraceSpec == TraceInit /\ [][Judge]_vars
====
