---- MODULE ArmMath ----
(* Facts about the published numbers, for all small score sequences, error   *)
(* probabilities and bootstrap counts.                                       *)
EXTENDS ArmRules, TLC
CONSTANTS Scores, MaxLen, Deltas, Bs
VARIABLES s, delta, k, B
Init ==
  /\ s \in UNION {[1..n -> Scores] : n \in 2..MaxLen}
  /\ delta \in Deltas /\ k \in 1..2 /\ B \in Bs
Next == UNCHANGED <<s, delta, k, B>>
Spec == Init /\ [][Next]_<<s, delta, k, B>>

Ok(iv) == WellFormed(iv[1], RVar(s), iv[2])
MomentsOK == RLe(0, RVar(s)) /\ ~RLt(Ate(s), RSort(s)[1])
CltOK == Ok(CltInterval(s, delta, k))
Chi2OK == Ok(Chi2Interval(s, delta))
FiniteOK == Ok(FiniteInterval(s, delta, "0.5", "1.0", 2, "0.25"))
\* Later updates have smaller error probability.
Widens == LET a == CltInterval(s, delta, k) b == CltInterval(s, delta, k + 1)
          IN RLe(b[1], a[1]) /\ RLe(a[2], b[2])
BootOK == LET n == IF B = 0 THEN DefaultB(delta) ELSE B
          IN 1 <= BootLow(n, delta) /\ BootLow(n, delta) <= BootHigh(n, delta)
             /\ BootHigh(n, delta) <= n
====
