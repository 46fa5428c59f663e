---- MODULE BanditTrace ----
(* Decides whether recorded runs of the real algorithms are behaviours that  *)
(* Bandit.tla allows.  traces.json is a sequence of records                   *)
(*   alg, K, upr, limit, tol, errp, stable, size, ev, res, exc, same, gen, runaway  *)
(* where every element of ev is one update of an arm in the order in which    *)
(* the code made it: the arm a, the ids of the units it was given, the error  *)
(* probability d it was asked for, and the cost-adjusted lo, est, hi that it  *)
(* published.  The verdict is total: the names of all clauses that fail.      *)
EXTENDS BanditRules, TLC, Json

Traces == JsonDeserialize("traces.json")

VARIABLES tid, l,
          lo, est, hi,       \* currently published
          maxlo, minhi,      \* intersection of all published intervals
          first, C, alloc,   \* for the next or current round
          got, cnt,          \* arms and number of updates of the current round
          rsmp,              \* units of the current round
          total, must, may,
          hist,              \* per completed round: lo, est, hi, samples, total
          given,             \* per arm: the units it was given
          bad, fin
vars == <<tid, l, lo, est, hi, maxlo, minhi, first, C, alloc, got, cnt, rsmp,
          total, must, may, hist, given, bad, fin>>

T == Traces[tid]
K == T.K
Arms == 1..T.K
Const(x) == [a \in Arms |-> x]

TraceInit ==
  /\ tid \in 1..Len(Traces) /\ l = 1
  /\ lo = [a \in 1..Traces[tid].K |-> -INF]
  /\ est = [a \in 1..Traces[tid].K |-> INF]
  /\ hi = [a \in 1..Traces[tid].K |-> INF]
  /\ maxlo = lo /\ minhi = hi
  /\ first = TRUE /\ C = 1..Traces[tid].K /\ alloc = {1..Traces[tid].K}
  /\ got = {} /\ cnt = 0
  /\ rsmp = [a \in 1..Traces[tid].K |-> 0]
  /\ total = 0 /\ must = FALSE /\ may = FALSE
  /\ hist = <<>> /\ given = [a \in 1..Traces[tid].K |-> <<>>]
  /\ bad = {} /\ fin = FALSE

Range(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
If(c, t) == IF c THEN {t} ELSE {}
AllocTag == IF T.alg = "s" THEN "C04" ELSE "C05"

\* C09: the units of an update.  Unit 0 stands for one that was not intact.
FeedBad(e) ==
  LET a == e.a
      n == Len(given[a])
      left == T.size - n IN   \* of the dataset, for this arm
  If(Len(e.ids) # (IF left < T.upr THEN left ELSE T.upr), "C09.count") \cup
  (IF T.stable
   THEN If(\E i \in 1..Len(e.ids) : e.ids[i] # n + i, "C09.block")
   ELSE If(\E i \in 1..Len(e.ids) : e.ids[i] \notin 1..e.gen, "C09.source") \cup
        If(Range(e.ids) \cap Range(given[a]) # {}
           \/ Cardinality(Range(e.ids)) # Len(e.ids), "C09.fresh"))

\* C08
DeltaBad(e) == If(Abs(e.d * K - T.errp) > K, "C08.delta")

Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         a == e.a
         lo1 == [lo EXCEPT ![a] = e.lo]
         est1 == [est EXCEPT ![a] = e.est]
         hi1 == [hi EXCEPT ![a] = e.hi]
         got1 == got \cup {a}
         rs1 == [rsmp EXCEPT ![a] = @ + Len(e.ids)]
         total1 == total + Len(e.ids)
         complete == cnt + 1 = RoundSize(T.alg, K, first, C)
         C1 == IF T.alg = "s" THEN Survivors(C, lo1, est1, hi1) ELSE C
         late == cnt = 0 /\ must
         startbad == If(late, "C02.late")
         outbad == If(T.alg = "s" /\ a \notin C, "C04.sampled") \cup
                   If(a \in got, AllocTag \o ".twice")
         allocbad == If(complete /\ got1 \notin alloc, AllocTag \o ".alloc")
     IN
     /\ lo' = lo1 /\ est' = est1 /\ hi' = hi1
     /\ maxlo' = [maxlo EXCEPT ![a] = IF e.lo > @ THEN e.lo ELSE @]
     /\ minhi' = [minhi EXCEPT ![a] = IF e.hi < @ THEN e.hi ELSE @]
     /\ given' = [given EXCEPT ![a] = @ \o e.ids]
     /\ total' = total1
     /\ bad' = bad \cup startbad \cup outbad \cup allocbad \cup FeedBad(e) \cup DeltaBad(e)
     /\ IF complete
        THEN /\ C' = C1 /\ first' = FALSE /\ got' = {} /\ cnt' = 0
             /\ rsmp' = Const(0)
             /\ alloc' = Allocations(T.alg, K, FALSE, C1, lo1, est1, hi1)
             /\ may' = MayStop(T.alg, K, C1, lo1, est1, hi1, T.tol, total1, T.limit)
             /\ must' = MustStop(T.alg, K, first, C1, lo1, est1, hi1, T.tol, total1, T.limit)
             /\ hist' = Append(hist, [lo |-> lo1, est |-> est1, hi |-> hi1,
                                      smp |-> rs1, cum |-> total1])
        ELSE /\ got' = got1 /\ cnt' = cnt + 1 /\ rsmp' = rs1
             /\ UNCHANGED <<C, first, alloc, may, must, hist>>
  /\ l' = l + 1
  /\ UNCHANGED <<tid, fin>>

R == T.res
\* C06, C07: histories have one entry per round for every arm, and the right ones.
SeriesBad(s, f, tag) ==
  IF Len(s) # K \/ \E a \in Arms : Len(s[a]) # Len(hist) THEN {"C06.length"}
  ELSE If(\E a \in Arms, r \in 1..Len(hist) : s[a][r] # hist[r][f][a], tag)
CumBad ==
  IF Len(R.cum) # Len(hist) THEN {"C06.length"}
  ELSE If(\E r \in 1..Len(hist) : R.cum[r] # hist[r].cum, "C06.cum")

Best == Range(R.best)
Consistent == \A a \in Arms : maxlo[a] <= minhi[a]
EffTol == IF T.alg = "s" THEN 0 ELSE T.tol
PacBad ==
  IF Over(total, T.limit) THEN {}
  ELSE IF Len(R.best) # 1 THEN {"C01.one"}
  ELSE If(Consistent /\ \E m \in Best : \E b \in Arms \ {m} : minhi[m] > maxlo[b] + EffTol,
          "C01.pac")
AnswerBad ==
  IF 0 \in Best THEN {"C03.notanarm"}
  ELSE If(Cardinality(Best) # Len(R.best), "C03.twice") \cup
       If(may /\ Best \notin Answers(T.alg, K, C, lo, est, hi, T.tol, total, T.limit), "C03.answer")

Verdict ==
  IF T.exc # "" THEN {"EXC"}
  ELSE IF T.runaway THEN {}
  ELSE If(cnt # 0, AllocTag \o ".partial") \cup
       If(cnt # 0 \/ ~may, "C02.early") \cup
       If(T.alg = "s" /\ cnt = 0 /\ ~may, "C04.dropped") \cup
       If(T.alg = "s" /\ ~(Best \subseteq C), "C04.returned") \cup
       If(R.best = <<>>, "C02.noanswer") \cup
       (IF 0 \in Best THEN {"C01.one"} ELSE PacBad) \cup AnswerBad \cup
       (IF cnt # 0 THEN {} ELSE
        SeriesBad(R.smp, "smp", "C06.samples") \cup CumBad \cup
        SeriesBad(R.lcb, "lo", "C07.lcb") \cup SeriesBad(R.ucb, "hi", "C07.ucb") \cup
        SeriesBad(R.est, "est", "C07.est")) \cup
       If(T.stable /\ ~T.same, "C09.modified")

Finish ==
  /\ l = Len(T.ev) + 1 /\ ~fin
  /\ bad' = bad \cup Verdict
  /\ fin' = TRUE
  /\ PrintT("VERDICT " \o ToJson(<<tid, bad'>>))
  /\ UNCHANGED <<tid, l, lo, est, hi, maxlo, minhi, first, C, alloc, got, cnt,
                 rsmp, total, must, may, hist, given>>

TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
====
