---- MODULE ArmTrace ----
(* Judges recorded lives of real arms.  A trace has                           *)
(*   kind ("split"/"boot"), ci, stable, B, g, tau, burn, wtab, ev             *)
(* and every event is one operation:                                          *)
(*   op "init", "reset", "invalid": readings lo, hi, est, ate, units          *)
(*   op "update": n new units; log, the calls of the nuisance parameter, each *)
(*     <<"fit", ids>> or <<"score", ids, var of the scores, number of fits    *)
(*     before it, position of the last of them>>; ready; cur, the current     *)
(*     score of every unit given so far; the readings; same, whether  *)
(*     the caller's data are unchanged; w, the nuisance width at delta / 2.   *)
EXTENDS ArmRules, TLC, Json

Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, N, tr, hd, k, prev, lost, bad, fin
vars == <<tid, l, N, tr, hd, k, prev, lost, bad, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}
Tol == "1e-7"
Read(e) == <<e.lo, e.hi, e.est, e.ate, e.units, e.pulls>>

TraceInit ==
  /\ tid \in 1..Len(Traces) /\ l = 1
  /\ N = 0 /\ tr = {} /\ hd = {} /\ k = 0 /\ prev = <<>> /\ lost = FALSE
  /\ bad = {} /\ fin = FALSE

Fits(log) == SelectSeq(log, LAMBDA c : c[1] = "fit")
FirstFit(log) == Range(Fits(log)[1][2])

\* The positions of the first scoring of training units after each fit but the
\* first one.
SetToSorted(S, n) == SelectSeq([i \in 1..n |-> i], LAMBDA x : x \in S)
BootPositions(log, A) ==
  LET cand == SelectSeq([i \in 1..Len(log) |-> i],
                        LAMBDA p : log[p][1] = "score" /\ log[p][4] > 1 /\ Range(log[p][2]) \subseteq A)
      first == SelectSeq([i \in 1..Len(cand) |-> i],
                         LAMBDA i : i = 1 \/ log[cand[i]][4] # log[cand[i - 1]][4])
  IN [i \in 1..Len(first) |-> cand[first[i]]]

Floor == "1e-6"
\* Quantiles of tiny probabilities are less accurate.
Same(iv, e) == LET tol == IF RLt(e.delta, "1e-6") THEN "1e-6" ELSE Tol
               IN RNear(iv[1], e.lo, tol, Floor) /\ RNear(iv[2], e.hi, tol, Floor)

UpdateBad(e) ==
  LET new == N + 1 .. N + e.n
      all == 1 .. N + e.n
      fits == Fits(e.log)
  IN
  IF e.exc # "" THEN {"EXC"}
  ELSE IF Len(fits) = 0 THEN {"C12.nofit", "C13.nofit"}
  ELSE
  LET seen == UNION {Range(e.log[i][2]) : i \in 1..Len(e.log)}
      A == FirstFit(e.log)
      H == all \ A
      sorted == SetToSorted(H, N + e.n)
      scores == [i \in 1..Cardinality(H) |-> e.cur[sorted[i]]]
      split == T.kind = "split"
      dup == \E i \in 1..Len(e.log) : Cardinality(Range(e.log[i][2])) # Len(e.log[i][2])
      \* the nuisance parameter and the folds
      folds ==
        If(0 \in seen, "C12.intact") \cup
        If(dup, "C12.twice") \cup
        If(~(seen \subseteq {0} \cup all), "C12.unknown") \cup
        If(0 \notin seen /\ ~SplitOK(T.stable, tr, hd, new, A, H), "C12.split") \cup
        If(\E i \in 1..Len(fits) : ~(Range(fits[i][2]) \subseteq A), "C12.fitheldout") \cup
        If(split /\ \E i \in 1..Len(fits) : Range(fits[i][2]) # A, "C12.fit") \cup
        If(e.ready /\ split /\ \E i \in 1..Len(e.log) : e.log[i][1] = "score" /\ Range(e.log[i][2]) # H, "C12.score") \cup
        If(~split /\ \E i \in 1..Len(e.log) : e.log[i][1] = "score" /\ Range(e.log[i][2]) # H
                        /\ ~(Range(e.log[i][2]) \subseteq A), "C12.score") \cup
        If(e.units # N + e.n, "C12.units") \cup
        If(~e.same, "C12.caller")
      vac == RClose(e.lo, 0, Tol) /\ e.hi = "Infinity" /\ e.est = "Infinity"
      finite == T.ci = "finite"
      moments ==
        IF 0 \in seen \/ Cardinality(H) < 2 THEN {}
        ELSE If(~RNear(e.est, VarEst(scores), Tol, Floor), "C13.var") \cup
             If(~RClose(e.ate, Ate(scores), Tol), "C13.mean") \cup
             If(split /\ RLe(e.delta, "0.5") /\ ~WellFormed(e.lo, RMul(e.est, "1.000000001"), RMul(e.hi, "1.00000001")), "C13.order") \cup
             If(finite /\ RLt(Cardinality(H), T.burn) /\ ~(REq(e.lo, 0) /\ e.hi = "Infinity"), "C13.burnin")
      pos == BootPositions(e.log, A)
      bvars == [i \in 1..Len(pos) |-> e.log[pos[i]][3]]
      B == IF T.B = 0 THEN DefaultB(e.delta) ELSE T.B
      level ==
        IF 0 \in seen \/ Cardinality(H) < 2 THEN {}
        ELSE CASE split /\ T.ci = "clt" -> If(~Same(CltInterval(scores, e.delta, k + 1), e), "C14.clt")
               [] split /\ T.ci = "chi2" -> If(~Same(Chi2Interval(scores, e.delta), e), "C14.chi2")
               [] split /\ finite -> If(~Same(FiniteInterval(scores, e.delta, T.g, T.tau, T.burn, e.w), e), "C14.finite")
               [] OTHER ->
                    If(Len(pos) # B, "C14.count") \cup
                    If(\E i \in 1..Len(pos) :
                         LET in == Range(e.log[e.log[pos[i]][5]][2])
                             out == Range(e.log[pos[i]][2])
                         IN in \cap out # {} \/ in \cup out # A, "C14.resample") \cup
                    If(Len(pos) = B /\ ~Same(BootInterval(bvars, e.delta), e), "C14.percentile")
  IN folds \cup (IF ~e.ready THEN If(~vac \/ e.ate \notin {"NaN", "None"}, "C13.vacuous") ELSE moments \cup level)

Step ==
  /\ l <= Len(T.ev) /\ ~lost
  /\ LET e == T.ev[l] IN
     CASE e.op = "init" ->
            /\ bad' = bad \cup If(e.units # 0, "C12.units")
            /\ prev' = Read(e) /\ UNCHANGED <<N, tr, hd, k, lost>>
       [] e.op = "reset" ->
            /\ bad' = bad \cup If(e.exc # "", "EXC") \cup If(e.units # 0, "C12.units") \cup
                      If(Read(e) # Read(T.ev[1]), "C10.readings")
            /\ N' = 0 /\ tr' = {} /\ hd' = {} /\ k' = 0 /\ prev' = Read(e) /\ UNCHANGED lost
       [] e.op = "invalid" ->
            /\ bad' = bad \cup If(e.exc = "", "C11.accepted") \cup
                      If(e.exc # "" /\ e.exc # "ValueError", "C11.error") \cup
                      If(Read(e) # prev \/ Len(e.log) > 0 \/ ~e.same, "C11.effect")
            /\ UNCHANGED <<N, tr, hd, k, prev, lost>>
       [] OTHER ->
            LET b == UpdateBad(e) IN
            /\ bad' = bad \cup b
            /\ N' = N + e.n /\ k' = k + 1 /\ prev' = Read(e)
            /\ IF b \cap {"EXC", "C12.nofit", "C12.intact", "C12.split", "C12.unknown"} # {}
               THEN lost' = TRUE /\ UNCHANGED <<tr, hd>>
               ELSE /\ tr' = FirstFit(e.log) /\ hd' = (1..N + e.n) \ FirstFit(e.log)
                    /\ UNCHANGED lost
  /\ l' = l + 1
  /\ UNCHANGED <<tid, fin>>

Finish ==
  /\ (l = Len(T.ev) + 1 \/ lost) /\ ~fin
  /\ fin' = TRUE
  /\ PrintT("VERDICT " \o ToJson(<<tid, bad>>))
  /\ UNCHANGED <<tid, l, N, tr, hd, k, prev, lost, bad>>

TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
====
