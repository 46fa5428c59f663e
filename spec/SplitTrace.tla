---- MODULE SplitTrace ----
(* Judges many real divisions.  A trace has tag (the property), kind, exc, n  *)
(* (units), k (folds), N (divisions), want (the sizes, or <<>> if they may    *)
(* vary), repeat (per unit: how often it was in the same fold as in the       *)
(* division before), and, of kind "small", draws: the divisions f that        *)
(* happened, with their counts c; of kind "large": in (per unit, per fold:    *)
(* how often), pairs <<u, v, c>> (how often units u, v were in one fold),     *)
(* within (ordered pairs of units in one fold, of all divisions together).    *)
(* Counts are compared with those of Split at seven standard deviations.      *)
EXTENDS SplitRules, Num, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, fin
vars == <<tid, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
C(t) == T.tag \o "." \o t
Enough == "40"
\* whether a count may be of an expected one
Fits(c, e) == RLt(e, Enough) \/ RLe(RAbs(RSub(c, e)), RAdd(1, RMul(7, RSqrt(e))))
RECURSIVE CountOf(_)
CountOf(d) == IF d = <<>> THEN 0 ELSE Head(d).c + CountOf(Tail(d))
\* Divisions of the same sizes all happen, and equally often.
DrawsOK ==
  \A s \in {SizesOf(T.draws[d].f, T.k) : d \in 1..Len(T.draws)} :
    LET D == Divisions(T.n, s)
        same == SelectSeq(T.draws, LAMBDA d : SizesOf(d.f, T.k) = s)
        e == RDiv(CountOf(same), Cardinality(D))
    IN (\A x \in 1..Len(same) : Fits(same[x].c, e)) /\ (Len(same) < Cardinality(D) => Fits(0, e))
\* how many units each fold had, of all divisions together
Tot(j) == IF T.kind = "small"
          THEN SumOf([d \in 1..Len(T.draws) |-> T.draws[d].c * Size(T.draws[d].f, j)])
          ELSE SumOf([u \in 1..T.n |-> T.in[u][j]])
RECURSIVE SquareSum(_)
SquareSum(j) == IF j = 0 THEN 0 ELSE LET x == Tot(j) IN RAdd(RMul(x, x), SquareSum(j - 1))
RepeatOK ==
  LET m == RMul(T.n, T.N)
      e == RDiv(RMul(T.N - 1, SquareSum(T.k)), RMul(m, m))
  IN \A u \in 1..T.n : Fits(T.repeat[u], e)
MarginalOK ==
  \A j \in 1..T.k : LET e == RDiv(Tot(j), T.n) IN \A u \in 1..T.n : Fits(T.in[u][j], e)
PairsOK ==
  LET e == RDiv(T.within, RMul(T.n, T.n - 1)) IN \A x \in 1..Len(T.pairs) : Fits(T.pairs[x][3], e)
Bad ==
  IF T.exc # "" THEN {C("exception")}
  ELSE If(T.kind = "small" /\ T.want # <<>> /\ \E d \in 1..Len(T.draws) : SizesOf(T.draws[d].f, T.k) # T.want, C("sizes")) \cup
       If(T.kind = "small" /\ ~DrawsOK, C("uniform")) \cup
       If(T.kind = "large" /\ ~MarginalOK, C("uniform")) \cup
       If(T.kind = "large" /\ ~PairsOK, C("pairs")) \cup
       If(~RepeatOK, C("independent"))
TraceInit == tid \in 1..Len(Traces) /\ fin = FALSE
Judge == ~fin /\ fin' = TRUE /\ UNCHANGED tid /\ PrintT("VERDICT " \o ToJson(<<tid, Bad>>))
TraceSpec == TraceInit /\ [][Judge]_vars
====
