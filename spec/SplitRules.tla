---- MODULE SplitRules ----
(* Random divisions of n units into folds of given sizes.  A division is the  *)
(* function from the units to their folds.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
Size(f, j) == Cardinality({u \in DOMAIN f : f[u] = j})
Divisions(n, s) == {f \in [1..n -> 1..Len(s)] : \A j \in 1..Len(s) : Size(f, j) = s[j]}
SizesOf(f, k) == [j \in 1..k |-> Size(f, j)]
\* sizes that differ by at most one
Even(n, k) == [j \in 1..k |-> n \div k + (IF j <= n % k THEN 1 ELSE 0)]
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
\* ordered pairs of different units of the same fold
PairsWithin(s) == SumOf([j \in 1..Len(s) |-> s[j] * (s[j] - 1)])
====
