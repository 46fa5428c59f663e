---- MODULE Paper ----
(* Building the arms: the back-door paths are added one after the other, and  *)
(* every arm so far is continued with Z_n and with V_n.  The covariates are   *)
(* Z_0, ..., Z_M, V_1, ..., V_M side by side, and arms select positions.      *)
EXTENDS PaperRules
CONSTANTS MaxM, Dims,
          Skips   \* "interleave": the covariates are V_1, Z_1, V_2, Z_2, ... behind Z_0
                  \* "share": arms that expect equally many columns have one nuisance parameter
VARIABLES M, zdim, vdim, n, list,
          mind,    \* what nuisance parameters have learned: the arm whose columns they were fitted to, 0 at first
          updated  \* the arms that were updated
vars == <<M, zdim, vdim, n, list, mind, updated>>
\* the column at every position of the covariates
Cols(v) == [c \in 1..Dim(v, zdim, vdim) |-> <<v[1], v[2], c>>]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Cols(Head(s)) \o Concat(Tail(s))
Layout == IF "interleave" \in Skips
          THEN Concat(<<<<"Z", 0>>>> \o [i \in 1..(2 * M) |-> IF i % 2 = 1 THEN <<"V", (i + 1) \div 2>> ELSE <<"Z", i \div 2>>])
          ELSE Concat([i \in 1..(M + 1) |-> <<"Z", i - 1>>] \o [i \in 1..M |-> <<"V", i>>])
RECURSIVE Total(_, _)
Total(d, k) == IF k = 0 THEN 0 ELSE d[k] + Total(d, k - 1)
\* positions that are computed from the dimensions
ZPos(i) == {Total(zdim, i) + c : c \in 1..zdim[i + 1]}
VPos(i) == {Total(zdim, M + 1) + Total(vdim, i) + c : c \in 1..vdim[i + 1]}
Init == /\ M \in 1..MaxM /\ zdim \in [1..(M + 1) -> Dims]
        /\ vdim \in {d \in [1..(M + 1) -> Dims \cup {0}] : d[1] = 0 /\ \A i \in 2..(M + 1) : d[i] > 0}
        /\ n = 1
        /\ list = <<[pos |-> ZPos(1), name |-> "Z_1", cost |-> 3, ch |-> <<"Z">>],
                    [pos |-> VPos(1), name |-> "V_1", cost |-> 5, ch |-> <<"V">>]>>
        /\ mind = [i \in 1..(2^M) |-> 0] /\ updated = {}
With(a, k, x) == [pos |-> a.pos \cup (IF x = "Z" THEN ZPos(k) ELSE VPos(k)),
                  name |-> a.name \o x \o "_" \o ToString(k),
                  cost |-> a.cost + (IF x = "Z" THEN 3 ELSE 5), ch |-> Append(a.ch, x)]
Extend == /\ n < M /\ n' = n + 1
          /\ list' = [i \in 1..Len(list) |-> With(list[i], n + 1, "Z")] \o [i \in 1..Len(list) |-> With(list[i], n + 1, "V")]
          /\ UNCHANGED <<M, zdim, vdim, mind, updated>>
\* The nuisance parameter of an arm; they are numbered.
EtaOf(i) == IF "share" \in Skips
            THEN CHOOSE k \in 1..i : /\ Cardinality(list[k].pos) = Cardinality(list[i].pos)
                                     /\ \A j \in 1..(k - 1) : Cardinality(list[j].pos) # Cardinality(list[i].pos)
            ELSE i
\* Small examples are used, too: arms are updated in any order.
Learn == /\ n = M /\ M <= 2 /\ Cardinality(updated) < 3
         /\ \E i \in 1..Len(list) : mind' = [mind EXCEPT ![EtaOf(i)] = i] /\ updated' = updated \cup {i}
         /\ UNCHANGED <<M, zdim, vdim, n, list>>
Spec == Init /\ [][Extend \/ Learn]_vars
\* What an arm has learned stays, whatever the others do.
Independent == \A i \in updated : mind[EtaOf(i)] = i
Read(a) == {Layout[p] : p \in a.pos}
AllChoices == {list[i].ch : i \in 1..Len(list)} = Choices(n) /\ Len(list) = Cardinality(Choices(n))
ArmsOK == \A i \in 1..Len(list) : /\ Read(list[i]) = ColumnsOf(list[i].ch, zdim, vdim)
                                  /\ list[i].name = NameOf(list[i].ch)
                                  /\ list[i].cost = CostOf(list[i].ch, 3, 5)
Distinct == \A i, j \in 1..Len(list) : i # j => list[i].name # list[j].name
FrontOK == {Layout[p] : p \in ZPos(0)} = VarColumns(<<"Z", 0>>, zdim, vdim)
====
