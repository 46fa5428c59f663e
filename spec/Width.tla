---- MODULE Width ----
(* Facts about the widths, for all small designs: they are positive, smaller   *)
(* error probabilities and stronger noise widen them, data that is seen again  *)
(* and again makes them vanish, and the order of units and the names of the    *)
(* columns do not matter.                                                      *)
EXTENDS WidthRules
CONSTANTS Cells, MaxRows, Deltas, Gs, Rhos, Kinds
VARIABLES kind, X, delta, g, rho
vars == <<kind, X, delta, g, rho>>
Cell(c) == RSub(c, 1)
Init == /\ kind \in Kinds /\ delta \in Deltas /\ g \in Gs /\ rho \in Rhos
        /\ X \in UNION {[1..n -> [1..2 -> {Cell(c) : c \in Cells}]] : n \in 2..MaxRows}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Full == ~Degenerate(Gram(X))
W(Y, d, s) == Width(kind, Y, d, s, rho, "0.1")
Positive == Full => RLt(0, W(X, delta, g))
Level == Full => RLe(W(X, delta, g), W(X, RDiv(delta, 2), g))
Order == Full => RClose(W(X, delta, g), W([k \in 1..Len(X) |-> X[Len(X) + 1 - k]], delta, g), "1e-9")
Columns == Full => RClose(W(X, delta, g), W([k \in 1..Len(X) |-> <<X[k][2], X[k][1]>>], delta, g), "1e-9")
RECURSIVE Times(_, _)
Times(Y, k) == IF k = 0 THEN <<>> ELSE Y \o Times(Y, k - 1)
Vanishes == Full => RLt(W(Times(X, 64), delta, g), RMul("0.75", W(X, delta, g)))
====
