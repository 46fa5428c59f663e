---- MODULE SeedTrace ----
(* Judges random functions and mechanisms that were built for real.  objs:     *)
(* seed, exc, parts: one per function or mechanism, with name, n, dim,          *)
(* nd (1 if a vector of samples is documented, else 2), shape, vals (rows),     *)
(* again (the rows one by one; <<>> if it is random itself), seeded (whether    *)
(* the part depends on the seed at all).  spaces: functions that were drawn with *)
(* special kernels: kind ("grid": values at different points of the grid have   *)
(* nothing in common; "linear"), n, dim (of the values), strong (whether the    *)
(* functions follow the sample from the prior), probes (in half steps of the    *)
(* grid), vals (of several functions).                                          *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, fin
vars == <<tid, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
N == Len(T.objs)
O(i) == T.objs[i]
Parts(i) == 1..Len(O(i).parts)
Column(v, c) == [r \in 1..Len(v) |-> v[r][c]]
ShapeOK(p) == p.shape = IF p.nd = 1 THEN <<p.n>> ELSE <<p.n, p.dim>>
\* What is drawn: a function that the kernel allows, of a grid of n points in
\* every dimension from min_x to max_x.
Large(x) == RLt("0.0001", x) \/ RLt(x, "-0.0001")
OnGrid(q, n) == \A c \in 1..Len(q) : q[c] % 2 = 0 /\ q[c] >= 0 /\ q[c] <= 2 * (n - 1)
SpaceBad(s) ==
  IF s.exc # "" THEN {"C26.exception"} ELSE
  IF \E f \in 1..Len(s.vals) : \E k \in 1..Len(s.vals[f]) : Len(s.vals[f][k]) # s.dim THEN {"C26.shape"} ELSE
  IF s.kind = "grid"
  THEN If(\E k \in 1..Len(s.probes) : \E c \in 1..s.dim :
            (\E f \in 1..Len(s.vals) : Large(s.vals[f][k][c])) # (s.strong /\ OnGrid(s.probes[k], s.n)), "C26.grid")
  ELSE If(\E f \in 1..Len(s.vals) : \E c \in 1..s.dim :
            LET v(k) == s.vals[f][k][c] IN
            \/ \E k \in 1..s.n : \/ ~RNear(RAdd(v(k), v(s.n + k)), v(2 * s.n + k), "1e-5", "1e-5")
                                \/ ~RNear(RMul(3, v(k)), v(3 * s.n + k), "1e-5", "1e-5")
            \/ \A k \in 1..s.n : ~Large(v(k)), "C26.kernel")

\* random parts may agree by chance when they have few values
Bad ==
  IF \E i \in 1..N : O(i).exc # "" THEN {"C26.exception"} ELSE
  UNION {SpaceBad(T.spaces[i]) : i \in 1..Len(T.spaces)} \cup
  If(\E i \in 1..N : \E k \in Parts(i) : ~ShapeOK(O(i).parts[k]), "C26.shape") \cup
  (IF \E i \in 1..N : \E k \in Parts(i) : ~ShapeOK(O(i).parts[k]) THEN {} ELSE
  If(\E i, j \in 1..N : O(i).seed = O(j).seed /\ \E k \in Parts(i) : O(i).parts[k].vals # O(j).parts[k].vals, "C26.determined") \cup
  If(\E i, j \in 1..N : O(i).seed # O(j).seed /\ \E k \in Parts(i) : O(i).parts[k].seeded /\ O(i).parts[k].vals = O(j).parts[k].vals, "C26.different") \cup
  If(\E i \in 1..N : \E k \in Parts(i) :
       LET p == O(i).parts[k] IN
       \E r \in 1..Len(p.again) : \E c \in 1..p.dim : ~RClose(p.again[r][c], p.vals[r][c], "1e-6"), "C26.rows") \cup
  If(\E i \in 1..N : \E k \in Parts(i) :
       LET p == O(i).parts[k] IN
       p.again # <<>> /\ \E c, d \in 1..p.dim : c # d /\ \A r \in 1..p.n : RClose(p.vals[r][c], p.vals[r][d], "1e-6"), "C26.components"))
TraceInit == tid \in 1..Len(Traces) /\ fin = FALSE
Judge == ~fin /\ fin' = TRUE /\ UNCHANGED tid /\ PrintT("VERDICT " \o ToJson(<<tid, Bad>>))
TraceSpec == TraceInit /\ [][Judge]_vars
====
