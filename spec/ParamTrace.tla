---- MODULE ParamTrace ----
(* Judges the lives of real nuisance parameters.  A trace has kind, need, ov,  *)
(* lreg, dim, stub (whether the models are the harness's), twin (pairs of what  *)
(* this object and a new one did), and ev:                                      *)
(*   (exposures are numbers, in text for linear regression)                     *)
(*   op "fit": d, exc, ready, same; and with stubs resp and prop, what the      *)
(*     models were fitted with last (empty if they were not)                    *)
(*   op "badfit", "badscore", "badphi", "badtruth": exc, ready                  *)
(*   op "score": d, exc, ready, out, same; mu0, mu1, p: what the models of an   *)
(*     AIPW predict; sup, ptab: the table of a front-door parameter             *)
(*   op "truth": tau, beta, gamma of the linear generator; op "reset"           *)
EXTENDS ParamRules, Json, SequencesExt
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, fit, truth, bad, fin
vars == <<tid, l, fit, truth, bad, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
Ifs(c, s) == IF c THEN s ELSE {}
Tol == "1e-7"
None == <<>>
Design(d) == [i \in 1..Len(d.cov) |-> <<d.exp[i]>> \o d.cov[i]]
Pick(s, I) == LET at == TLCEval(SetToSortSeq(I, <)) IN TLCEval([k \in 1..Len(at) |-> s[at[k]]])
EnoughData(d) == IF T.kind = "reg" THEN Len(d.exp) >= 1 ELSE Enough(T.kind, T.need, Treated(d), Controls(d))
Where(d, x) == {i \in 1..Len(d.exp) : d.exp[i] = x}
\* Bags of rows
CountOf(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == s = t \/ (Len(s) = Len(t) /\ \A i \in 1..Len(s) : CountOf(s, s[i]) = CountOf(t, s[i]))

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ fit = None /\ truth = None /\ bad = {} /\ fin = FALSE

\* The models of the harness.
StubSalt(d) == RAdd(RMean(d.rsp), RMul("0.01", Len(d.rsp)))
Sgn(j) == IF j % 2 = 1 THEN 1 ELSE -1
StubMu(s, x, z) ==
  RAdd(RAdd(s, RMul("1.5", x)),
       RAdd(RSum([j \in 1..Len(z) |-> RMul(RMul("0.7", j * Sgn(j)), z[j])]), RMul("0.5", RMul(x, z[1]))))
StubE(m, z) ==
  RMin(1, RMax(0, RAdd(RAdd("0.25", RMul("0.5", m)), RMul("0.25", RSum([j \in 1..Len(z) |-> RMul(Sgn(j), z[j])])))))

\* Populations: cells of equal covariates.
Cell(d, i, x) == {j \in 1..Len(d.exp) : d.cov[j] = d.cov[i] /\ d.exp[j] = x}
MeanOf(d, I) == RMean(Pick(d.rsp, I))
Full(d) == \A i \in 1..Len(d.exp) : Cell(d, i, 0) # {} /\ Cell(d, i, 1) # {}
Ate(d) == RMean([i \in 1..Len(d.exp) |-> RSub(MeanOf(d, Cell(d, i, 1)), MeanOf(d, Cell(d, i, 0)))])

AipwBad(e) ==
  IF ~T.stub /\ Len(e.mu0) # Len(e.d.exp) THEN {}   \* its models are not accessible
  ELSE
  LET d == e.d
      n == Len(d.exp)
      salt == IF T.fixed THEN T.salt ELSE StubSalt(fit)
      pm == IF T.fixed THEN T.pmean ELSE RMean(fit.exp)
      mu0 == TLCEval(IF T.stub THEN [i \in 1..n |-> StubMu(salt, 0, d.cov[i])] ELSE e.mu0)
      mu1 == TLCEval(IF T.stub THEN [i \in 1..n |-> StubMu(salt, 1, d.cov[i])] ELSE e.mu1)
      pr == TLCEval(IF T.stub THEN [i \in 1..n |-> StubE(pm, d.cov[i])] ELSE e.p)
      right == \A i \in 1..n : RClose(Clip(pr[i], T.ov), RDiv(Cardinality(Cell(d, i, 1)),
                                        Cardinality(Cell(d, i, 0)) + Cardinality(Cell(d, i, 1))), Tol)
      exact == \A i \in 1..n : RClose(mu0[i], MeanOf(d, Cell(d, i, 0)), Tol) /\ RClose(mu1[i], MeanOf(d, Cell(d, i, 1)), Tol)
  IN If(\E i \in 1..n : ~RClose(e.out[i], AipwScore(mu0[i], mu1[i], pr[i], T.ov, d.exp[i], d.rsp[i]), Tol),
        IF T.stub THEN "C19.score" ELSE "C19.models") \cup
     If(T.stub /\ Len(d.exp) > 0 /\ Full(d) /\ (exact \/ right) /\ ~RClose(RMean(e.out), Ate(d), Tol), "C19.mean") \cup
     If(~T.stub /\ \E i \in 1..n : \/ ~RClose(mu0[i], e.r0[i], "1e-6") \/ ~RClose(mu1[i], e.r1[i], "1e-6")
                                   \/ ~RClose(pr[i], e.rp[i], "0.01"), "C19.fitted")

RegBad(e) ==
  LET w == RegWeights(Design(fit), T.lreg)
      D == Design(e.d)
  IN If(\E i \in 1..Len(D) : ~RClose(e.out[i], RegScore(w, D[i], e.d.rsp[i]), Tol), "C21.regression")

TwoBad(e) ==
  LET m(x) == Ridge(Pick(fit.cov, Where(fit, x)), Pick(fit.rsp, Where(fit, x)), 1, TRUE)
      m1 == TLCEval(m(1))
      m0 == TLCEval(m(0))
  IN If(\E i \in 1..Len(e.d.cov) : ~RClose(e.out[i], RSub(Linear(m1, e.d.cov[i]), Linear(m0, e.d.cov[i])), Tol), "C21.ridge")

FdBad(e) ==
  LET d == e.d
      n == Len(d.exp)
      m == TLCEval(Ridge(Design(fit), fit.rsp, 1, TRUE))
      sup == e.sup
      mean == RMean(fit.exp)
      p1 == Clip(mean, T.ov)
      rows(z) == TLCEval(<<Linear(m, <<0>> \o z), Linear(m, <<1>> \o z)>>)
      mu == TLCEval([k \in 1..Len(sup) |-> rows(sup[k])])
      own(z) == IF \E k \in 1..Len(sup) : sup[k] = z
                THEN e.ptab[CHOOSE k \in 1..Len(sup) : sup[k] = z] ELSE <<"0.0", "0.0">>
      \* the population identity
      Cx(x) == Where(fit, x)
      Czx(k, x) == {i \in Cx(x) : fit.cov[i] = sup[k]}
      freq == TLCEval([k \in 1..Len(sup) |-> TLCEval([x \in 1..2 |-> RDiv(Cardinality(Czx(k, x - 1)), Cardinality(Cx(x - 1)))])])
      within == /\ d = fit
                /\ REq(p1, mean)
                /\ \A k \in 1..Len(sup) : \A x \in 1..2 :
                     /\ Czx(k, x - 1) # {}
                     /\ REq(Clip(freq[k][x], T.ov), freq[k][x])
                     /\ RClose(e.ptab[k][x], freq[k][x], "1e-9")
      cells == TLCEval([k \in 1..Len(sup) |-> TLCEval([x \in 1..2 |-> MeanOf(fit, Czx(k, x - 1))])])
  IN If(\E i \in 1..n : ~RClose(e.out[i], FdScore(mu, e.ptab, p1, T.ov, rows(d.cov[i]), own(d.cov[i]), d.exp[i], d.rsp[i]), Tol), "C20.score") \cup
     If(within /\ ~RClose(RMean(e.out), FdEffect(cells, freq, p1), Tol), "C20.mean")

TruthBad(e) ==
  LET noise(i) == RSub(e.d.rsp[i], RAdd(RMul(truth.tau, e.d.exp[i]), RDot(truth.beta, e.d.cov[i])))
      want(i) == IF T.kind = "two" THEN truth.tau
                 ELSE LET m == RDot(truth.beta, e.d.cov[i])
                      IN AipwScore(m, RAdd(m, truth.tau), Sigmoid(RDot(truth.gamma, e.d.cov[i])), T.ov, e.d.exp[i], e.d.rsp[i])
  IN If(\E i \in 1..Len(e.d.cov) : RClose(noise(i), 0, Tol) /\ ~RClose(e.out[i], truth.tau, Tol), "C21.truth") \cup
     If(\E i \in 1..Len(e.d.cov) : ~RClose(e.out[i], want(i), Tol), "C21.installed")

Own == CASE T.kind = "aipw" -> "C19" [] T.kind = "fd" -> "C20" [] OTHER -> "C21"
ScoreBad(e) ==
  IF fit = None /\ truth = None
  THEN IF T.kind = "reg" THEN {}
       ELSE IF e.exc # "" THEN {"C18.exception"}
       ELSE If(\E i \in 1..Len(e.out) : ~RIsNaN(e.out[i]), "C18.nan") \cup If(Len(e.out) # Len(e.d.exp), "C18.nan")
  ELSE IF e.exc # "" THEN {"C18.exception", Own \o ".exception", "C11.refused"}
  ELSE IF Len(e.out) # Len(e.d.exp) THEN {Own \o ".shape"}
  ELSE (IF truth # None THEN TruthBad(e)
        ELSE LET b == CASE T.kind = "aipw" -> AipwBad(e)
                        [] T.kind = "two" -> TwoBad(e)
                        [] T.kind = "reg" -> RegBad(e)
                        [] OTHER -> FdBad(e)
             IN b \cup If(b # {} /\ l > 2, "C18.scores"))
       \cup If(~e.same, Own \o ".arguments")

FitBad(e) ==
  LET ok == EnoughData(e.d)
      ready == ok \/ fit # None \/ truth # None
  IN IF e.exc # "" THEN {"C18.exception", "C11.refused"}
     ELSE If(e.ready # ready, "C18.ready") \cup If(~e.same, Own \o ".arguments") \cup
          Ifs(ok /\ T.stub /\ ~SameBag(e.resp, [i \in 1..Len(e.d.exp) |-> Design(e.d)[i] \o <<e.d.rsp[i]>>]), {"C19.response", "C18.fit"}) \cup
          Ifs(ok /\ T.stub /\ ~SameBag(e.prop, [i \in 1..Len(e.d.exp) |-> e.d.cov[i] \o <<e.d.exp[i]>>]), {"C19.propensity", "C18.fit"})

Reject(e) ==
  If(e.exc = "", "C11.accepted") \cup If(e.exc # "" /\ e.exc # "ValueError", "C11.error") \cup
  If(e.ready # (fit # None \/ truth # None), "C11.effect")

Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     CASE e.op = "fit" ->
            /\ bad' = bad \cup FitBad(e)
            /\ IF EnoughData(e.d)
               THEN fit' = e.d /\ truth' = None ELSE UNCHANGED <<fit, truth>>
       [] e.op = "score" ->
            LET b == ScoreBad(e) IN
            /\ bad' = bad \cup b \cup If(e.ready # (fit # None \/ truth # None), "C18.ready")
                        \* a rejected request must not have had an effect
                        \cup If(b # {} /\ l > 1 /\ T.ev[l - 1].op \in {"badfit", "badscore", "badphi", "badtruth"}
                                /\ bad = {}, "C11.effect")
            /\ UNCHANGED <<fit, truth>>
       [] e.op = "reset" ->
            /\ bad' = bad \cup If(e.exc # "", "C10.exception") \cup If(e.ready, "C10.ready") \cup If(e.ready, "C18.ready")
            /\ fit' = None /\ truth' = None
       [] e.op = "truth" ->
            /\ bad' = bad \cup If(e.exc # "", "C21.exception") \cup If(~e.ready, "C21.ready")
            /\ truth' = [tau |-> e.tau, beta |-> e.beta, gamma |-> e.gamma] /\ UNCHANGED fit
       [] OTHER -> bad' = bad \cup Reject(e) /\ UNCHANGED <<fit, truth>>
  /\ l' = l + 1 /\ UNCHANGED <<tid, fin>>
Finish ==
  /\ l = Len(T.ev) + 1 /\ ~fin /\ fin' = TRUE
  /\ LET b == bad \cup If(\E i \in 1..Len(T.twin) : T.twin[i][1] # T.twin[i][2], "C10.twin")
     IN PrintT("VERDICT " \o ToJson(<<tid, b>>)) /\ bad' = b
  /\ UNCHANGED <<tid, l, fit, truth>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
====
