---- MODULE BanditRules ----
(* The decision rules of the best arm identification algorithms, shared by   *)
(* the design model (Bandit.tla), the scenario generator and the trace       *)
(* checker (BanditTrace.tla).  All values are cost-adjusted, i.e. an arm's   *)
(* published value times its cost.  An arm is a number in 1..K; lo, est and  *)
(* hi are functions over 1..K.                                               *)
EXTENDS Integers, Sequences, FiniteSets

INF == 1000000   \* stands for +infinity

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* The arms of E with the lowest estimate.
Lowest(E, est) == {a \in E : \A b \in E : est[a] <= est[b]}

\* The confidence bounds prove that m is within tol of the best of all arms.
CertFor(K, m, lo, hi, tol) ==
  /\ \A a \in 1..K : hi[a] < INF
  /\ \A b \in (1..K) \ {m} : hi[m] < lo[b] + tol
\* With several lowest estimates it is open which of them is tested.
MayCert(K, lo, est, hi, tol) == \E m \in Lowest(1..K, est) : CertFor(K, m, lo, hi, tol)
MustCert(K, lo, est, hi, tol) == \A m \in Lowest(1..K, est) : CertFor(K, m, lo, hi, tol)

\* Successive elimination: what remains of the candidates C after a round.
LowestUcb(C, est, hi) == MinOf({hi[a] : a \in Lowest(C, est)})
Keepers(C, est, hi) == {a \in Lowest(C, est) : hi[a] = LowestUcb(C, est, hi)}
Survivors(C, lo, est, hi) ==
  {a \in C : lo[a] < LowestUcb(C, est, hi)} \cup Keepers(C, est, hi)

\* LUCB: the pairs of arms that may be sampled next.
Pairs(S) == {{a, b} : a \in S, b \in S} \ {{a} : a \in S}
LucbPairs(K, lo, est, hi) ==
  LET L == Lowest(1..K, est)
      R == (1..K) \ L
  IN IF R = {} THEN Pairs(1..K)
     ELSE {{u, l} : u \in {a \in L : hi[a] = MaxOf({hi[x] : x \in L})},
                    l \in {a \in R : lo[a] = MinOf({lo[x] : x \in R})}}

\* The sets of arms that may be sampled in the next round.
\* first: no round has been completed;  C: the remaining candidates (SE).
Allocations(alg, K, first, C, lo, est, hi) ==
  CASE alg = "u" -> {1..K}
    [] alg = "l" -> IF first THEN {1..K} ELSE LucbPairs(K, lo, est, hi)
    [] alg = "s" -> {C}

RoundSize(alg, K, first, C) ==
  CASE alg = "u" -> K
    [] alg = "l" -> IF first THEN K ELSE 2
    [] alg = "s" -> Cardinality(C)

\* limit = INF: no limit
Over(total, limit) == limit < INF /\ total > limit

\* After a round that left C (SE: the survivors): may / must the run stop?
MayStop(alg, K, C, lo, est, hi, tol, total, limit) ==
  \/ Over(total, limit)
  \/ IF alg = "s" THEN Cardinality(C) = 1 ELSE MayCert(K, lo, est, hi, tol)
MustStop(alg, K, first, C, lo, est, hi, tol, total, limit) ==
  \/ Over(total, limit)
  \/ IF alg = "s" THEN Cardinality(C) = 1
     ELSE IF alg = "l" /\ first THEN FALSE
     ELSE MustCert(K, lo, est, hi, tol)

\* The answers that are allowed when the run stops.
Answers(alg, K, C, lo, est, hi, tol, total, limit) ==
  LET E == IF alg = "s" THEN C ELSE 1..K
      budget == IF Over(total, limit) THEN {Lowest(E, est)} ELSE {}
      conf == IF alg = "s" THEN (IF Cardinality(C) = 1 THEN {C} ELSE {})
              ELSE {{m} : m \in {x \in Lowest(E, est) : CertFor(K, x, lo, hi, tol)}}
  IN budget \cup conf
====
