---- MODULE CpdRules ----
(* The table that a fit on counts has to produce.  c[x][z] is the number of   *)
(* observations, p[x][z] a probability (a real of Num.tla).                   *)
EXTENDS Naturals, Sequences, FiniteSets, Num
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Tol == "1e-9"

ZSeen(c) == {z \in 1..Len(c[1]) : \E x \in 1..Len(c) : c[x][z] > 0}
XSeen(c) == {x \in 1..Len(c) : SumSeq(c[x]) > 0}
Floor(c, ratio) == RDiv(1, RMul(Cardinality(ZSeen(c)), RMax(1, ratio)))
Freq(c, x, z) == RDiv(c[x][z], SumSeq(c[x]))

\* p is near or above q
Above(p, q) == RLe(RSub(q, Tol), p)

RowSum(c, p, x) == RSum([z \in 1..Len(p[x]) |-> IF z \in ZSeen(c) THEN p[x][z] ELSE 0])
FloorOK(c, ratio, p, x) == \A z \in ZSeen(c) : Above(p[x][z], Floor(c, ratio))
SumOK(c, p, x) == RClose(RowSum(c, p, x), 1, Tol)
ExactOK(c, ratio, p, x) ==
  (\A z \in ZSeen(c) : Above(Freq(c, x, z), Floor(c, ratio)))
  => \A z \in ZSeen(c) : RClose(p[x][z], Freq(c, x, z), Tol)
OrderOK(c, p, x) ==
  \A y, z \in ZSeen(c) : c[x][y] <= c[x][z] => Above(p[x][z], p[x][y])
UnseenOK(c, p) ==
  \A x \in 1..Len(c) : \A z \in 1..Len(c[1]) :
    (x \notin XSeen(c) \/ z \notin ZSeen(c)) => REq(p[x][z], 0)
MarginOK(c, m) ==
  LET n == SumSeq([x \in 1..Len(c) |-> SumSeq(c[x])])
  IN \A x \in 1..Len(c) : RClose(m[x], RDiv(SumSeq(c[x]), n), Tol)
====
