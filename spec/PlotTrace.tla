---- MODULE PlotTrace ----
(* Judges real plots.  A trace of kind "run" has names (of all arms), req     *)
(* (indices of the plotted arms), skip, before and after (the histories       *)
(* cum, lo, est, hi, n, best), exc, same (the axes object is returned),       *)
(* lines: label ("" without one), pts; bands: pts of each, as sequences of    *)
(* <<x, y>>; legend: its texts.  A trace of kind "surface" has a (the         *)
(* coefficients of f), box (x_low, x_high, y_low, y_high), exc, pts           *)
(* (vertices <<x, y, z>> of the surface, extreme ones and a sample), asked    *)
(* (extremes of the points where f was evaluated).                            *)
EXTENDS PlotRules, Num, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, fin
vars == <<tid, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}
H == T.before
Name(i) == T.names[T.req[i]]
\* a curve as numbers: all of it, in order
Same(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k]
Curve(i, ys) == Points(H.cum, ys[T.req[i]], T.skip)
Labelled == {l \in 1..Len(T.lines) : T.lines[l].label # ""}
Plain == {l \in 1..Len(T.lines) : T.lines[l].label = ""}
Count(name) == Cardinality({i \in 1..Len(T.req) : Name(i) = name})
MidOK(i) == Cardinality({l \in Labelled : T.lines[l].label = Name(i) /\ Same(T.lines[l].pts, Curve(i, H.est))}) >= 1
PlainOK(l) == \E i \in 1..Len(T.req) : Same(T.lines[l].pts, Curve(i, H.lo)) \/ Same(T.lines[l].pts, Curve(i, H.hi))
Finite(i) == {k \in Shown(Len(H.cum), T.skip) : RFinite(H.lo[T.req[i]][k]) /\ RFinite(H.hi[T.req[i]][k])}
BandSet(i) == PointSet(H.cum, H.lo[T.req[i]], Finite(i)) \cup PointSet(H.cum, H.hi[T.req[i]], Finite(i))
BandOK(i) == BandSet(i) = {} \/ \E b \in 1..Len(T.bands) : Range(T.bands[b]) = BandSet(i)
BandKnown(b) == Range(T.bands[b]) = {} \/ \E i \in 1..Len(T.req) : Range(T.bands[b]) = BandSet(i)
RunBad ==
  If(T.exc # "", "C27.exception") \cup
  If(T.before # T.after, "C27.changed") \cup
  (IF T.exc # "" THEN {} ELSE
   If(~T.same, "C27.axes") \cup
   If(\E i \in 1..Len(T.req) : ~MidOK(i), "C27.estimates") \cup
   If(\E i \in 1..Len(T.req) : Cardinality({l \in Labelled : T.lines[l].label = Name(i)}) # Count(Name(i)), "C27.label") \cup
   If(\E l \in Labelled : ~\E i \in 1..Len(T.req) : T.lines[l].label = Name(i), "C27.label") \cup
   If(\E l \in Plain : ~PlainOK(l), "C27.curve") \cup
   If(\E i \in 1..Len(T.req) : ~BandOK(i), "C27.band") \cup
   If(\E b \in 1..Len(T.bands) : ~BandKnown(b), "C27.band") \cup
   If(\E i \in 1..Len(T.req) : ~\E l \in 1..Len(T.legend) : T.legend[l] = Name(i), "C27.legend") \cup
   If(Len(T.legend) # Len(T.req), "C27.legend"))
F(x, y) == RSum(<<T.a[1], RMul(T.a[2], x), RMul(T.a[3], y), RMul(T.a[4], RMul(x, y)), RMul(T.a[5], RMul(x, x))>>)
Xs == {T.pts[k][1] : k \in 1..Len(T.pts)}
Ys == {T.pts[k][2] : k \in 1..Len(T.pts)}
Reaches(S, lo, hi) == (\E s \in S : RClose(s, lo, "1e-6")) /\ (\E s \in S : RClose(s, hi, "1e-6"))
                      /\ \A s \in S : (RLe(lo, s) \/ RClose(s, lo, "1e-6")) /\ (RLe(s, hi) \/ RClose(s, hi, "1e-6"))
SurfaceBad ==
  IF T.exc # "" THEN {"C27.exception"} ELSE
  If(\E k \in 1..Len(T.pts) : ~RClose(T.pts[k][3], F(T.pts[k][1], T.pts[k][2]), "1e-5"), "C27.surface") \cup
  If(~Reaches(Xs, T.box[1], T.box[2]) \/ ~Reaches(Ys, T.box[3], T.box[4]), "C27.box") \cup
  If(T.labels # <<"x", "y">>, "C27.axislabels")
Bad == IF T.kind = "run" THEN RunBad ELSE SurfaceBad
TraceInit == tid \in 1..Len(Traces) /\ fin = FALSE
Judge == ~fin /\ fin' = TRUE /\ UNCHANGED tid /\ PrintT("VERDICT " \o ToJson(<<tid, Bad>>))
TraceSpec == TraceInit /\ [][Judge]_vars
====
