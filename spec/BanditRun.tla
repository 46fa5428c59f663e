---- MODULE BanditRun ----
(* Bandit.tla with what a run reads and records: the units that every update *)
(* is given, the error probability that it asks for, and the histories that  *)
(* are returned.  A stable source is a data set that every arm reads from    *)
(* its beginning; a fresh source generates new units for every update; of a  *)
(* shared source, all arms of a round are given the same new units.          *)
(* Runs have a sample limit, so that they are finite.                        *)
EXTENDS Bandit

CONSTANTS Sources, ErrorProb, Skips
(* Sources \subseteq {"stable", "fresh", "shared"}.  ErrorProb: a multiple of all K.    *)
(* Skips: defects that are modelled to show that the properties can fail.    *)

VARIABLES source,
          given,   \* per arm: the units of all of its updates
          made,    \* number of units that were generated
          last,    \* the latest update: arm, units, error probability
          now,     \* per arm: samples in the current round
          hist     \* per completed round: lo, est, hi, samples, cumulative samples
rvars == <<source, given, made, last, now, hist>>

RInit ==
  /\ Init
  /\ source \in Sources
  /\ given = [a \in 1..K |-> <<>>] /\ made = 0
  /\ last = [a |-> 0, ids |-> <<>>, d |-> 0]
  /\ now = [a \in 1..K |-> 0] /\ hist = <<>>

Block(n) == [i \in 1..U |-> n + i]

RStart ==
  /\ StartRound
  /\ now' = [a \in Arms |-> 0]
  /\ UNCHANGED <<source, given, made, last, hist>>

Pointer(a) == IF "pointer" \in Skips THEN (made \div 2) ELSE Len(given[a])
RPull ==
  /\ Pull
  /\ LET a == MinOf(todo)
         first == pulled = {}     \* the first update of the round
         from == IF "again" \in Skips /\ made > U THEN made - U ELSE made
         ids == CASE source = "stable" -> Block(Pointer(a))
                  [] source = "shared" /\ ~first -> last.ids
                  [] OTHER -> Block(from)
         share == IF "share" \in Skips THEN Cardinality(C) ELSE K
     IN /\ given' = [given EXCEPT ![a] = @ \o ids]
        /\ made' = IF source = "shared" /\ ~first THEN made ELSE made + U
        /\ last' = [a |-> a, ids |-> ids, d |-> ErrorProb \div share]
        /\ now' = [now EXCEPT ![a] = Len(ids)]
  /\ UNCHANGED <<source, hist>>

Entry ==
  LET known == IF "sampledonly" \in Skips THEN pulled ELSE Arms
      show(f, x) == [a \in Arms |-> IF a \in known THEN f[a] ELSE x]
      cumbase == IF hist = <<>> THEN 0 ELSE hist[Len(hist)].cum
      sum == IF "cum" \in Skips THEN U * K ELSE U * Cardinality(pulled)
  IN [lo |-> show(lo, 0), est |-> show(est, 0), hi |-> show(hi, 0),
      smp |-> now, cum |-> cumbase + sum]
RJudge ==
  /\ Judge
  /\ hist' = IF "tail" \in Skips /\ phase' = "done" THEN hist ELSE Append(hist, Entry)
  /\ UNCHANGED <<source, given, made, last, now>>

RNext == RStart \/ RPull \/ RJudge
RSpec == RInit /\ [][RNext]_<<vars, rvars>>

(* ------------------------------ properties ------------------------------- *)
RoundsDone == Len(hist)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == MinOf(S) IN f[x] + Sum(f, S \ {x})

\* C06
SamplesAreUnits ==
  /\ \A r \in 1..Len(hist), a \in Arms : hist[r].smp[a] \in {0, U}
  /\ \A r \in 1..Len(hist) :
       hist[r].cum = Sum([a \in Arms |-> Sum([q \in 1..r |-> hist[q].smp[a]], 1..r)], Arms)
  /\ phase \in {"start", "done"} =>
       \A a \in Arms : Sum([q \in 1..Len(hist) |-> hist[q].smp[a]], 1..Len(hist)) = Len(given[a])
TotalsAgree == (phase \in {"start", "done"} /\ hist # <<>>) => hist[Len(hist)].cum = total
EveryRoundRecorded ==   \* the units that all arms hold tell how many rounds there were
  phase \in {"start", "done"} =>
    \/ alg # "u"
    \/ \A a \in Arms : Len(given[a]) = U * Len(hist)

\* C07
LastIsPublished ==
  (phase \in {"start", "done"} /\ hist # <<>>) =>
    LET e == hist[Len(hist)] IN e.lo = lo /\ e.est = est /\ e.hi = hi
FrozenWhenNotSampled ==
  \A r \in 2..Len(hist), a \in Arms :
    hist[r].smp[a] = 0 =>
      /\ hist[r].lo[a] = hist[r-1].lo[a]
      /\ hist[r].est[a] = hist[r-1].est[a]
      /\ hist[r].hi[a] = hist[r-1].hi[a]
OnlyAppended == [][Len(hist') >= Len(hist) /\ SubSeq(hist', 1, Len(hist)) = hist]_<<vars, rvars>>

\* C08
EqualShare == last.a # 0 => last.d * K = ErrorProb
\* ... so that the union bound over the arms holds with equality.
UnionBound == last.a # 0 => Sum([a \in Arms |-> last.d], Arms) <= ErrorProb

\* C09
Units(a) == {given[a][i] : i \in 1..Len(given[a])}
ConsecutiveBlocks ==
  source = "stable" => \A a \in Arms : \A i \in 1..Len(given[a]) : given[a][i] = i
AlwaysFresh ==    \* no arm is ever given the same unit twice
  source # "stable" =>
    \A a \in Arms : /\ Cardinality(Units(a)) = Len(given[a])
                    /\ source = "fresh" => \A b \in Arms \ {a} : Units(a) \cap Units(b) = {}
WholeUpdates == last.a # 0 => Len(last.ids) = U

\* C29: what an arm holds on a data set depends on the number of its updates
\* alone, in particular neither on the algorithm nor on the other arms.
ArmDeterminedByUpdates ==
  source = "stable" => \A a, b \in Arms : Len(given[a]) = Len(given[b]) => given[a] = given[b]
====
