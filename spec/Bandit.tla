---- MODULE Bandit ----
(* Design model of the three algorithms in causal_effect_bandits/bandits.py. *)
(*                                                                           *)
(* One action per step of the implementation: a round is started (the arms   *)
(* to sample are selected), each of them is updated, and the round is        *)
(* judged.  The environment decides what an updated arm publishes: any       *)
(* interval that contains the arm's true value, and any estimate inside the  *)
(* interval or none yet (est = hi = INF, lo = 0).                            *)
EXTENDS BanditRules, TLC

CONSTANTS Algs, Ks, Grid, Tols, Limits, U, LoseTruth
(* Algs \subseteq {"u","l","s"}; Ks: numbers of arms; Grid: values;          *)
(* Tols: tolerances; Limits: sample limits, INF = none; U: units per round;  *)
(* LoseTruth: whether intervals may miss the true value.                     *)

VARIABLES alg, K, tol, limit, truth,
          lo, est, hi,          \* what the arms publish
          phase,                \* "start" | "pull" | "judge" | "done"
          todo,                 \* arms that the current round still samples
          round,                \* rounds that have been started, at most 2 are told apart
          C,                    \* candidates
          total,                \* samples
          pulled,               \* arms sampled in the current round
          answer, why
vars == <<alg, K, tol, limit, truth, lo, est, hi, phase, todo, round, C, total,
          pulled, answer, why>>

Arms == 1..K
Intervals(t) ==
  {<<l, e, h>> \in Grid \X Grid \X Grid :
      l <= e /\ e <= h /\ (LoseTruth \/ (l <= t /\ t <= h))}
  \cup {<<0, INF, INF>>}

Init ==
  /\ alg \in Algs /\ K \in Ks /\ tol \in Tols /\ limit \in Limits
  /\ truth \in (IF LoseTruth THEN {[a \in 1..K |-> 0]} ELSE [1..K -> Grid])
  /\ lo = [a \in 1..K |-> -INF]
  /\ est = [a \in 1..K |-> INF]
  /\ hi = [a \in 1..K |-> INF]
  /\ phase = "start" /\ todo = {} /\ round = 0
  /\ C = 1..K /\ total = 0 /\ pulled = {} /\ answer = {} /\ why = "none"

StartRound ==
  /\ phase = "start"
  /\ \E S \in Allocations(alg, K, round = 0, C, lo, est, hi) :
       /\ todo' = S
       /\ pulled' = {}
  /\ phase' = "pull"
  /\ round' = IF round < 2 THEN round + 1 ELSE 2
  /\ UNCHANGED <<alg, K, tol, limit, truth, lo, est, hi, C, total, answer, why>>

Publish(a, v) ==
  /\ lo' = [lo EXCEPT ![a] = v[1]]
  /\ est' = [est EXCEPT ![a] = v[2]]
  /\ hi' = [hi EXCEPT ![a] = v[3]]

\* The order within a round does not matter for anything, so it is fixed.
Pull ==
  /\ phase = "pull" /\ todo # {}
  /\ LET a == MinOf(todo) IN
       /\ \E v \in Intervals(truth[a]) : Publish(a, v)
       /\ todo' = todo \ {a}
       /\ pulled' = pulled \cup {a}
  \* without a limit nothing depends on the number of samples
  /\ total' = IF limit = INF THEN 0 ELSE total + U
  /\ phase' = IF Cardinality(todo) = 1 THEN "judge" ELSE "pull"
  /\ UNCHANGED <<alg, K, tol, limit, truth, round, C, answer, why>>

Judge ==
  /\ phase = "judge"
  /\ C' = IF alg = "s" THEN Survivors(C, lo, est, hi) ELSE C
  /\ \/ /\ MayStop(alg, K, C', lo, est, hi, tol, total, limit)
        /\ answer' \in Answers(alg, K, C', lo, est, hi, tol, total, limit)
        /\ why' = IF Over(total, limit) THEN "limit" ELSE "confidence"
        /\ phase' = "done"
     \/ /\ ~MustStop(alg, K, round = 1, C', lo, est, hi, tol, total, limit)
        /\ phase' = "start"
        /\ UNCHANGED <<answer, why>>
  /\ UNCHANGED <<alg, K, tol, limit, truth, lo, est, hi, todo, round, total, pulled>>

Next == StartRound \/ Pull \/ Judge
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------- *)
TypeOK ==
  /\ phase \in {"start", "pull", "judge", "done"}
  /\ C \subseteq Arms /\ todo \subseteq Arms /\ answer \subseteq Arms

\* C01: with intervals that contain the truth, an answer before the limit is
\* (epsilon, delta)-correct.
Correct ==
  (phase = "done" /\ why = "confidence") =>
    /\ Cardinality(answer) = 1
    /\ \A a \in answer, b \in Arms : truth[a] <= truth[b] + (IF alg = "s" THEN 0 ELSE tol)

\* C02: a run that goes on has no reason to stop; the limit is exceeded by at
\* most one round.
StopsInTime ==
  /\ phase = "start" => ~Over(total, limit)
  /\ limit < INF => total <= limit + K * U
  /\ (phase = "start" /\ round = 2 /\ alg # "s") => ~MustCert(K, lo, est, hi, tol)
  /\ phase = "done" => answer # {}

\* C03
BestEstimate ==
  (phase = "done" /\ (why = "limit" \/ alg # "s")) =>
    LET E == IF alg = "s" THEN C ELSE Arms
    IN \A a \in answer : a \in E /\ \A b \in E : est[a] <= est[b]

\* C04
CandidatesNonEmpty == C # {}
BestSurvives ==   \* the truly best arm is dropped only for an equally good one
  (alg = "s" /\ ~LoseTruth) => \E a \in C : \A b \in Arms : truth[a] <= truth[b]
EliminatedForGood == [][C' \subseteq C]_vars
OnlyCandidatesSampled == (alg = "s" /\ phase \in {"pull", "judge"}) => pulled \cup todo = C
AnswerIsCandidate == phase = "done" => answer \subseteq C

\* C05
TwoDistinct ==
  (alg = "l" /\ round = 2 /\ phase \in {"pull", "judge"}) => Cardinality(pulled \cup todo) = 2
AllSampled ==
  ((alg = "u" \/ (alg = "l" /\ round = 1)) /\ phase \in {"pull", "judge"}) => pulled \cup todo = Arms
LeaderSampled ==   \* an arm with the lowest estimate is always among those sampled
  (alg = "l" /\ round = 2 /\ phase = "pull" /\ pulled = {}) => \E a \in todo : a \in Lowest(Arms, est)

\* C06: samples come in rounds
WholeRounds == phase = "start" => total % U = 0
NoOverrun == \A a \in Arms : hi[a] >= lo[a]
====
