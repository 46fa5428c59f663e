---- MODULE PaperRules ----
(* The arms of the paper's examples.  A variable is <<"Z", i>> or <<"V", i>>,  *)
(* a column is <<"Z", i, c>>.  zdim[i+1] is the dimension of Z_i, vdim[i+1]    *)
(* that of V_i (V_0 does not exist).                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Dim(v, zdim, vdim) == IF v[1] = "Z" THEN zdim[v[2] + 1] ELSE vdim[v[2] + 1]
VarColumns(v, zdim, vdim) == {<<v[1], v[2], c>> : c \in 1..Dim(v, zdim, vdim)}
\* One variable for every back-door path.
Choices(M) == [1..M -> {"Z", "V"}]
ColumnsOf(ch, zdim, vdim) == UNION {VarColumns(<<ch[i], i>>, zdim, vdim) : i \in DOMAIN ch}
RECURSIVE NameOf(_)
NameOf(ch) == IF ch = <<>> THEN ""
              ELSE NameOf(SubSeq(ch, 1, Len(ch) - 1)) \o ch[Len(ch)] \o "_" \o ToString(Len(ch))
RECURSIVE CostOf(_, _, _)
CostOf(ch, zc, vc) == IF ch = <<>> THEN 0 ELSE (IF Head(ch) = "Z" THEN zc ELSE vc) + CostOf(Tail(ch), zc, vc)
====
