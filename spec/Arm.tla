---- MODULE Arm ----
(* The life of an arm: batches of units arrive and are split, the nuisance   *)
(* parameter is fitted on one fold and scored on the other, and the arm may  *)
(* be reset or asked for something invalid at any time.                      *)
EXTENDS ArmRules, TLC

CONSTANTS MaxUnits, MaxBatch, MaxOps, Needs, Stables,
          Boots              \* may the arm be a bootstrap arm?

VARIABLES stable, need, boot, \* configuration
          fickle,            \* may the nuisance parameter lose its readiness?
          given, train, held, pulls,
          fitted,            \* units of the latest sufficient fit
          scorer,            \* those of the fit that the estimate was scored with
          basis,             \* units that the published estimate comes from
          pub,               \* "none", "vacuous", "estimate"
          last, ops
vars == <<stable, need, boot, fickle, given, train, held, pulls, fitted, scorer, basis, pub, last, ops>>

Init ==
  /\ stable \in Stables /\ need \in Needs /\ boot \in Boots /\ fickle \in (IF boot THEN {FALSE} ELSE BOOLEAN)
  /\ given = 0 /\ train = {} /\ held = {} /\ pulls = 0
  /\ fitted = {} /\ scorer = {} /\ basis = {} /\ pub = "none"
  /\ last = "init" /\ ops = 0

\* The units that a nuisance parameter is fitted on after it was offered S.
Fitted(n, S, before) == IF Cardinality(S) >= n THEN S ELSE before
Resamples(A) == SUBSET A

\* All ways to divide units 1..b in two folds (generation uses fewer).
Splits(b) == SUBSET (1..b)

Update(m) ==
  LET new == given + 1 .. given + m IN
  /\ \E A \in Splits(given + m) :
       LET B == (1..given + m) \ A IN
       /\ SplitOK(stable, train, held, new, A, B)
       /\ train' = A /\ held' = B
       /\ LET fit == Fitted(need, A, fitted) IN
          \E ok \in IF fickle THEN BOOLEAN ELSE {TRUE} :
          IF fit = {} \/ ~ok THEN /\ fitted' = fit /\ scorer' = {}
                           /\ basis' = {} /\ pub' = "vacuous"
          ELSE \E S \in IF boot THEN Resamples(A) ELSE {{}} :
               \* A bootstrap arm fits resamples of its training fold, of
               \* which S is the last one, and then the fold itself again.
               LET resampled == IF boot THEN Fitted(need, S, fit) ELSE fit
                   again == Fitted(need, A, resampled)
               IN /\ fitted' = again /\ scorer' = again
                  /\ basis' = B /\ pub' = "estimate"
  /\ given' = given + m /\ pulls' = pulls + 1
  /\ last' = "update" /\ UNCHANGED <<stable, need, boot, fickle>>

Reset ==
  /\ given' = 0 /\ train' = {} /\ held' = {} /\ pulls' = 0
  /\ fitted' = {} /\ scorer' = {} /\ basis' = {} /\ pub' = "none"
  /\ last' = "reset" /\ UNCHANGED <<stable, need, boot, fickle>>

Invalid == last' = "invalid" /\ UNCHANGED <<stable, need, boot, fickle, given, train, held, pulls, fitted, scorer, basis, pub>>

Next ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ \E m \in 1..MaxBatch : given + m <= MaxUnits /\ Update(m)
     \/ Reset
     \/ Invalid

Spec == Init /\ [][Next]_vars

Conserved == train \cup held = 1..given /\ train \cap held = {}
NoLeak == fitted \subseteq train \/ ~stable    \* resplitting moves units
Honest == basis \cap fitted = {} \/ (~stable /\ fitted # train)
Balanced == LET d == Cardinality(train) - Cardinality(held)
            IN IF stable THEN d \in -pulls..pulls ELSE d \in -1..1
Published == ~fickle => ((pub = "estimate") <=> (fitted # {}))
\* Without readiness nothing that was estimated before is published.
NothingOld == pub # "estimate" => basis = {} /\ scorer = {}
Current == pub = "estimate" => basis = held
ScoredByFold == pub = "estimate" /\ Cardinality(train) >= need => scorer = train
LikeNew == last = "reset" => (given = 0 /\ train = {} /\ held = {} /\ pulls = 0 /\ fitted = {} /\ pub = "none")
StableSides == [][last' = "update" /\ stable => train \subseteq train' /\ held \subseteq held']_vars
NoEffect == [][last' = "invalid" => UNCHANGED <<given, train, held, pulls, fitted, scorer, basis, pub>>]_vars

====
