---- MODULE PaperTrace ----
(* Judges real examples.  A trace has M, zdim, vdim, zc, vc, zc0 (costs),      *)
(* latex, limit, upr, method ("clt", "finite"), exc, and                       *)
(* arms: name, cost, reads (per batch the columns <<letter, i, c>> that        *)
(*   reached the nuisance parameter; <<"?", 0, 0>> if it is none), exc,        *)
(*   vacuous (per batch: is the interval vacuous, and is the arm ready),            *)
(* names (of all arms; of those of large examples only some are in arms),      *)
(* deep (of the same arms): scale, scores, wide, lo, hi, weights, prob, ready, *)
(*   kept (scores after the others were fitted and reset),                     *)
(* runs: kind, limit, upr, arms (indices into arms), requests (to the model),  *)
(*   cum, deltas (of all updates), exc.                                        *)
EXTENDS PaperRules, ArmRules, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, fin
vars == <<tid, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}
Wrap(name) == IF T.latex THEN "$" \o name \o "$" ELSE name
Exactly(cols, S) == Range(cols) = S /\ Len(cols) = Cardinality(S)
ReadsOK(a, S) == Len(a.reads) > 0 /\ \A i \in 1..Len(a.reads) : Exactly(a.reads[i], S)
Front == {i \in 1..Len(T.arms) : T.arms[i].name = "frontdoor"}
Back == {i \in 1..Len(T.arms) : T.arms[i].name # "frontdoor"}
Of(ch) == {i \in Back : T.arms[i].name = Wrap(NameOf(ch))}
ArmBad ==
  If(Cardinality(Front) # 1, "C25.frontdoor") \cup
  If(\E i \in Front : ~ReadsOK(T.arms[i], VarColumns(<<"Z", 0>>, T.zdim, T.vdim)) \/ ~RClose(T.arms[i].cost, T.zc0, "1e-9"), "C25.frontdoor") \cup
  If(Len(T.names) # Cardinality(Choices(T.M)) + 1 \/ Range(T.names) # {"frontdoor"} \cup {Wrap(NameOf(ch)) : ch \in Choices(T.M)}, "C25.choices") \cup
  If(\E i \in Back : \A ch \in Choices(T.M) : T.arms[i].name # Wrap(NameOf(ch)), "C25.choices") \cup
  If(\E ch \in Choices(T.M) : \E i \in Of(ch) : ~ReadsOK(T.arms[i], ColumnsOf(ch, T.zdim, T.vdim)), "C25.reads") \cup
  If(\E ch \in Choices(T.M) : \E i \in Of(ch) : ~RClose(T.arms[i].cost, CostOf(ch, T.zc, T.vc), "1e-9"), "C25.cost") \cup
  If(\E i \in 1..Len(T.arms) : T.arms[i].exc # "", "C25.columns") \cup
  If(\E i \in 1..Len(T.arms) : \E j \in 1..Len(T.arms[i].vacuous) :
        LET v == T.arms[i].vacuous[j] IN
          IF T.method = "finite" THEN ~v[1] /\ j = Len(T.arms[i].vacuous) ELSE v[1] = v[2], "C25.method")
\* What the arms do with much data (of 10% error probability) of which few units
\* are treated: their intervals, the limits of their weights, and whether they
\* keep what they learn whatever happens to the other arms.
Limit == "0.25"   \* of the probability of a treatment
Enough == 5       \* units in treatment and in control
BurnIn == 1000
Heaviest == RDiv(1, Limit)   \* weight of a treated unit, and of one in control
Lightest == RDiv("-1.0", RSub(1, Limit))
FirstInterval(d) == IF T.method = "clt" THEN CltInterval(d.scores, "0.1", 1)
                    ELSE FiniteInterval(d.scores, "0.1", d.scale, 2, BurnIn, d.wide)
SameEnd(x, y) == x = y \/ (RFinite(x) /\ RFinite(y) /\ RNear(x, y, "1e-7", "1e-9"))
DeepBad(i) ==
  LET d == T.deep[i]
      front == T.arms[i].name = "frontdoor" IN
  IF d.exc # "" THEN {"C25.columns"} ELSE
  If(\E k \in 2..Len(d.kept) : d.kept[k] # d.kept[1], "C25.independent") \cup
  If(d.ready # <<FALSE, TRUE, FALSE, TRUE>>, "C25.enough") \cup
  (IF front
   THEN If(~RClose(d.prob[1], Lightest, "1e-9") \/ ~RClose(d.prob[2], Heaviest, "1e-9"), "C25.overlap")
   ELSE If(~RClose(d.weights[2], Heaviest, "1e-6") \/ RLt(RMul(Lightest, "0.9999"), d.weights[1]), "C25.overlap")) \cup
  If((d.scale # "" \/ T.method = "clt")
     /\ LET s == FirstInterval(d) IN ~SameEnd(s[1], d.lo) \/ ~SameEnd(s[2], d.hi), "C25.interval")

RunBad(r) ==
  IF r.exc # "" THEN {"C25.run"} ELSE
  If(r.limit # T.limit, "C25.limit") \cup
  If(r.upr # T.upr \/ Range(r.requests) # {T.upr}, "C25.upr") \cup
  If(Range(r.arms) # 1..Len(T.arms) \/ Len(r.arms) # Len(T.arms), "C25.shared") \cup
  If(\E i \in 1..Len(r.deltas) : ~RClose(r.deltas[i], T.runs[1].deltas[1], "1e-9"), "C25.delta") \cup
  If(r.cum[Len(r.cum)] <= T.limit /\ ~r.certified, "C25.limit") \cup
  If(Len(r.cum) > 1 /\ r.cum[Len(r.cum) - 1] > T.limit, "C25.limit")
Bad == IF T.exc # "" THEN {"C25.exception"}
       ELSE ArmBad \cup UNION {DeepBad(i) : i \in 1..Len(T.deep)} \cup UNION {RunBad(T.runs[i]) : i \in 1..Len(T.runs)} \cup
            If(Len(T.arms) = Len(T.names) /\ [i \in 1..Len(T.runs) |-> T.runs[i].kind] # <<"LUCBAlgorithm", "SuccessiveEliminationAlgorithm", "UniformAlgorithm">>,
               "C25.algorithms")
TraceInit == tid \in 1..Len(Traces) /\ fin = FALSE
Judge == ~fin /\ fin' = TRUE /\ UNCHANGED tid /\ PrintT("VERDICT " \o ToJson(<<tid, Bad>>))
TraceSpec == TraceInit /\ [][Judge]_vars
====
