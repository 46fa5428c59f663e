---- MODULE MechRules ----
(* The documented functions of the building blocks of mechanisms.  A sample   *)
(* is a sequence of rows (one per unit) of reals of Num.tla; betas[i] has one  *)
(* row per dimension of parent i, and one column per dimension of the result. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Num

Fn(f, v) == CASE f = "id" -> v [] f = "sq" -> RMul(v, v) [] f = "neg" -> RNeg(v) [] f = "abs" -> RAbs(v)
              [] f = "inc" -> RAdd(v, 1) [] f = "seven" -> R(7) [] OTHER -> R(0)

Term(parents, betas, i, j, c) == RDot(parents[i][j], [d \in 1..Len(parents[i][j]) |-> betas[i][d][c]])
\* The functions transform the terms of their parents.
Sum(parents, betas, fns, mean, j, c) ==
  RAdd(mean[c], RSum([i \in 1..Len(parents) |-> Fn(fns[i], Term(parents, betas, i, j, c))]))

\* All parents of unit j side by side.
RECURSIVE Row(_, _)
Row(parents, j) == IF parents = <<>> THEN <<>> ELSE Head(parents)[j] \o Row(Tail(parents), j)
Structural(f, row) ==
  CASE f = "sum" -> <<RSum(row)>>
    [] f = "weights" -> <<RSum([k \in 1..Len(row) |-> RMul(k, row[k])])>>
    [] f = "last" -> <<row[Len(row)]>>
    [] f = "pair" -> <<RSum(row), RMul(3, row[1])>>
    [] OTHER -> row

ShapeOK(out, n, dims) == Len(out) = n /\ \A j \in 1..n : Len(out[j]) = dims
Near(a, b) == RClose(a, b, "1e-9")
====
