---- MODULE PaperGraph ----
(* The graph of the paper's examples, and why the arms are entitled to their    *)
(* covariates.  Variables are <<"X", 0>>, <<"Y", 0>>, <<"Z", i>>, <<"V", i>>.    *)
(* A walk explores the paths between two variables; a path is blocked by a set  *)
(* as in d-separation.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets
X == <<"X", 0>>
Y == <<"Y", 0>>
V(i) == <<"V", i>>
Z(i) == <<"Z", i>>
Vars(M) == {X, Y, Z(0)} \cup {V(i) : i \in 1..M} \cup {Z(i) : i \in 1..M}
\* The parents, in the order in which mechanisms receive them.
Parents(v, M) ==
  CASE v = X -> [i \in 1..M |-> V(i)]
    [] v = Y -> [i \in 1..(M + 1) |-> Z(i - 1)]
    [] v = Z(0) -> <<X>>
    [] v[1] = "Z" /\ v # Z(0) -> <<V(v[2])>>
    [] OTHER -> <<>>
Edge(a, b, M) == \E k \in 1..Len(Parents(b, M)) : Parents(b, M)[k] = a
\* The covariates of a sample, side by side.
Blocks(M) == [i \in 1..(M + 1) |-> Z(i - 1)] \o [i \in 1..M |-> V(i)]
RECURSIVE Below(_, _)
Below(S, M) == LET more == S \cup {b \in Vars(M) : \E a \in S : Edge(a, b, M)} IN IF more = S THEN S ELSE Below(more, M)
Descendants(v, M) == Below({v}, M)
\* Whether the inner variable k of a path blocks it.
BlocksAt(p, k, S, M) ==
  IF Edge(p[k - 1], p[k], M) /\ Edge(p[k + 1], p[k], M)
  THEN Descendants(p[k], M) \cap S = {}
  ELSE p[k] \in S
Blocked(p, S, M) == \E k \in 2..(Len(p) - 1) : BlocksAt(p, k, S, M)
====
