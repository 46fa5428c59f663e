---- MODULE WidthTrace ----
(* Judges the widths that real nuisance parameters report.  An event is        *)
(* [op |-> "fit", d |-> index of the data] or [op |-> "width", delta, g, rho, w].*)
EXTENDS WidthRules, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, d, bad, fin
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ d = 0 /\ bad = {} /\ fin = FALSE
If(c, t) == IF c THEN {t} ELSE {}
\* Rows of the design: the treatment comes first for the front door.
Design(x) == IF T.kind = "aipw" THEN x.cov ELSE [k \in 1..Len(x.cov) |-> <<x.exp[k]>> \o x.cov[k]]
Judge(e) ==
  IF e.exc # "" THEN {"C30.raised"}
  ELSE LET X == Design(T.data[d])
           V == Gram(X)
       IN IF RIsNaN(e.w) \/ RLe(e.w, 0) THEN {"C30.positive"}
          ELSE IF Degenerate(V) THEN If(RLt(e.w, 1000), "C30.degenerate")
          ELSE IF RLe(REigMin(V), RMul("1e-7", Trace(V))) THEN {}   \* ill-conditioned
          ELSE LET w == Width(T.kind, X, e.delta, e.g, e.rho, T.ov)
               IN IF RFinite(w) THEN If(~RFinite(e.w) \/ ~RClose(RDiv(e.w, w), 1, "1e-6"), "C30.width")
                  ELSE If(RFinite(e.w), "C30.width")
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ d' = IF e.op = "fit" THEN e.d ELSE d
     /\ bad' = bad \cup (IF e.op = "width" THEN Judge(e) \cup If(~e.same, "C30.changed") ELSE {})
  /\ l' = l + 1 /\ UNCHANGED <<tid, fin>>
Finish ==
  /\ l = Len(T.ev) + 1 /\ ~fin
  /\ bad' = bad \cup If(T.exc # "", "EXC")
  /\ fin' = TRUE /\ PrintT("VERDICT " \o ToJson(<<tid, bad'>>))
  /\ UNCHANGED <<tid, l, d>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_<<tid, l, d, bad, fin>>
====
