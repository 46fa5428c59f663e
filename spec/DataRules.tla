---- MODULE DataRules ----
(* Data sets as columns: cov is a sequence of rows, exp and rsp sequences    *)
(* (absent: e, r FALSE).  Cells are numbers that name their unit and column. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Cell(id, c) == id + 10000 * c
ExpCell(id) == 2 * id + 1
RspCell(id) == 3 * id

\* The data set with these units, original columns, and optional columns.
Make(ids, cols, e, r) ==
  [cov |-> [i \in 1..Len(ids) |-> [j \in 1..Len(cols) |-> Cell(ids[i], cols[j])]],
   exp |-> IF e THEN [i \in 1..Len(ids) |-> ExpCell(ids[i])] ELSE <<>>,
   rsp |-> IF r THEN [i \in 1..Len(ids) |-> RspCell(ids[i])] ELSE <<>>,
   e |-> e, r |-> r, nf |-> Len(cols), n |-> Len(ids)]

\* Column-wise operations, as the implementation has to perform them.
Pick(s, pos) == [i \in 1..Len(pos) |-> s[pos[i]]]
Select(d, pos) ==
  [d EXCEPT !.cov = Pick(d.cov, pos),
            !.exp = IF d.e THEN Pick(d.exp, pos) ELSE <<>>,
            !.rsp = IF d.r THEN Pick(d.rsp, pos) ELSE <<>>,
            !.n = Len(pos)]
CanAppend(d, x) == d.nf = x.nf /\ (d.e => x.e) /\ (d.r => x.r)
Append2(d, x) ==
  [d EXCEPT !.cov = d.cov \o x.cov,
            !.exp = IF d.e THEN d.exp \o x.exp ELSE <<>>,
            !.rsp = IF d.r THEN d.rsp \o x.rsp ELSE <<>>,
            !.n = d.n + x.n]
Columns(d, js) ==
  [d EXCEPT !.cov = [i \in 1..d.n |-> Pick(d.cov[i], js)], !.nf = Len(js)]

\* Units with their cells, as a bag over all columns that are present.
UnitAt(d, i) == <<d.cov[i], IF d.e THEN d.exp[i] ELSE 0, IF d.r THEN d.rsp[i] ELSE 0>>
Count(d, u) == Cardinality({i \in 1..d.n : UnitAt(d, i) = u})
Units(d) == {UnitAt(d, i) : i \in 1..d.n}
Consistent(d) == /\ Len(d.cov) = d.n
                 /\ d.e => Len(d.exp) = d.n
                 /\ d.r => Len(d.rsp) = d.n
                 /\ ~d.e => d.exp = <<>>
                 /\ ~d.r => d.rsp = <<>>
                 /\ \A i \in 1..d.n : Len(d.cov[i]) = d.nf
RECURSIVE SumOf(_)
SumOf(parts) == IF parts = <<>> THEN 0 ELSE Head(parts).n + SumOf(Tail(parts))
\* parts is a partition of the units of d.
RECURSIVE Total(_, _)
Total(parts, u) == IF parts = <<>> THEN 0 ELSE Count(Head(parts), u) + Total(Tail(parts), u)
Partition(d, parts) ==
  /\ \A p \in 1..Len(parts) : Consistent(parts[p]) /\ parts[p].e = d.e /\ parts[p].r = d.r /\ parts[p].nf = d.nf
  /\ IF Cardinality(Units(d)) = d.n   \* no two units are alike
     THEN /\ SumOf(parts) = d.n
          /\ UNION {Units(parts[p]) : p \in 1..Len(parts)} = Units(d)
     ELSE \A u \in Units(d) \cup UNION {Units(parts[p]) : p \in 1..Len(parts)} : Total(parts, u) = Count(d, u)
EvenSizes(parts) == \A p, q \in 1..Len(parts) : parts[p].n - parts[q].n \in {-1, 0, 1}
====
