---- MODULE PlotRules ----
(* What a plot of a run shows.  A history has cum (one number per round) and  *)
(* lo, est, hi (for every arm, one number per round); the plot of the arms    *)
(* `req` leaves out the first `skip` rounds.                                  *)
EXTENDS Naturals, Sequences, FiniteSets
Shown(n, skip) == (skip + 1)..n
Points(cum, ys, skip) == [k \in 1..(IF skip < Len(cum) THEN Len(cum) - skip ELSE 0) |-> <<cum[skip + k], ys[skip + k]>>]
PointSet(cum, ys, rounds) == {<<cum[k], ys[k]>> : k \in rounds}
====
