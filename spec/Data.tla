---- MODULE Data ----
(* A heap of data sets on which the operations of ExpData and the covariate  *)
(* transformers are performed in any order.                                  *)
EXTENDS DataRules, TLC
CONSTANTS MaxObj, MaxRows, MaxCols, MaxOps
VARIABLES heap, next, op, src, out, refused, ops
vars == <<heap, next, op, src, out, refused, ops>>

Init == heap = <<>> /\ next = 1 /\ op = <<"none">> /\ src = <<>> /\ out = <<>> /\ refused = FALSE /\ ops = 0

Add(ds) == heap \o ds
Room(k) == Len(heap) + k <= MaxObj

New(n, dim, e, r) ==
  /\ Room(1)
  /\ LET d == Make([i \in 1..n |-> next + i - 1], [j \in 1..dim |-> j - 1], e, r) IN
     heap' = Add(<<d>>) /\ out' = <<d>>
  /\ next' = next + n /\ src' = <<>> /\ refused' = FALSE
  /\ op' = <<"new", n, dim, IF e THEN 1 ELSE 0, IF r THEN 1 ELSE 0>>

DoAppend(i, j) ==
  /\ heap[i].n + heap[j].n <= MaxRows
  /\ IF CanAppend(heap[i], heap[j])
     THEN /\ heap' = [heap EXCEPT ![i] = Append2(heap[i], heap[j])] /\ refused' = FALSE
          /\ out' = <<heap'[i]>>
     ELSE UNCHANGED heap /\ refused' = TRUE /\ out' = <<>>
  /\ src' = <<heap[i], heap[j]>> /\ op' = <<"append", i, j>> /\ UNCHANGED next

\* Folds: fold f of unit i is fs[i].
Positions(fs, f) == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : fs[i] = f)
Parts(d, fs, k) == [f \in 1..k |-> Select(d, Positions(fs, f))]
Assign(n, k) == [1..n -> 1..k]
Fold(i, k) ==
  /\ Room(k) /\ heap[i].n > 0
  /\ \E fs \in Assign(heap[i].n, k) :
       LET ps == Parts(heap[i], fs, k) IN
       /\ EvenSizes(ps) /\ heap' = Add(ps) /\ out' = ps
  /\ src' = <<heap[i]>> /\ op' = <<"fold", i, k>> /\ refused' = FALSE /\ UNCHANGED next
Sub(i, p) ==
  /\ Room(2) /\ heap[i].n > 0
  /\ \E fs \in Assign(heap[i].n, 2) :
       LET ps == Parts(heap[i], fs, 2) IN
       /\ p = 0 => ps[1].n = 0
       /\ p = 4 => ps[2].n = 0
       /\ heap' = Add(ps) /\ out' = ps
  /\ src' = <<heap[i]>> /\ op' = <<"sub", i, p>> /\ refused' = FALSE /\ UNCHANGED next
Slice(i, a, b) ==
  /\ Room(1) /\ a <= b /\ b <= heap[i].n
  /\ LET d == Select(heap[i], [x \in 1..b - a |-> a + x]) IN heap' = Add(<<d>>) /\ out' = <<d>>
  /\ src' = <<heap[i]>> /\ op' = <<"slice", i, a, b>> /\ refused' = FALSE /\ UNCHANGED next
Mask(i, js) ==
  /\ Room(1)
  /\ LET d == Columns(heap[i], js) IN heap' = Add(<<d>>) /\ out' = <<d>>
  /\ src' = <<heap[i]>> /\ op' = <<"mask", i>> \o js /\ refused' = FALSE /\ UNCHANGED next
Remove(i, j) ==
  /\ Room(1) /\ heap[i].nf > 1
  /\ LET d == Columns(heap[i], SelectSeq([x \in 1..heap[i].nf |-> x], LAMBDA x : x # j))
     IN heap' = Add(<<d>>) /\ out' = <<d>>
  /\ src' = <<heap[i]>> /\ op' = <<"remove", i, j>> /\ refused' = FALSE /\ UNCHANGED next
Invalid(i, w) ==
  /\ src' = <<heap[i]>> /\ out' = <<>> /\ op' = <<w, i>> /\ refused' = TRUE /\ UNCHANGED <<heap, next>>

Next ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ \E n \in 0..MaxRows, dim \in 1..MaxCols, e, r \in BOOLEAN : New(n, dim, e, r)
     \/ \E i \in 1..Len(heap) :
          \/ \E j \in 1..Len(heap) : DoAppend(i, j)
          \/ \E k \in 1..3 : Fold(i, k)
          \/ \E p \in {0, 2, 4} : Sub(i, p)
          \/ \E a, b \in 0..MaxRows : Slice(i, a, b)
          \/ \E len \in 1..2 : \E js \in [1..len -> 1..heap[i].nf] : Mask(i, js)
          \/ \E j \in 1..heap[i].nf : Remove(i, j)
          \/ Invalid(i, "badfold") \/ Invalid(i, "badsub")
Spec == Init /\ [][Next]_vars

AllConsistent == \A i \in 1..Len(heap) : Consistent(heap[i])
\* Every cell of a row names the same unit.
Aligned == \A i \in 1..Len(heap) : \A x \in 1..heap[i].n :
  LET d == heap[i]
      ids == {d.cov[x][c] % 10000 : c \in 1..d.nf} \cup
             (IF d.e THEN {(d.exp[x] - 1) \div 2} ELSE {}) \cup (IF d.r THEN {d.rsp[x] \div 3} ELSE {})
  IN Cardinality(ids) = 1
Conserves ==
  /\ op[1] \in {"fold", "sub"} => Partition(src[1], out)
  /\ op[1] = "append" /\ ~refused => out[1].n = src[1].n + src[2].n
  /\ op[1] \in {"mask", "remove"} => out[1].n = src[1].n /\ out[1].exp = src[1].exp
\* At most one object changes, and only by append.
Local == [][\A i \in 1..Len(heap) : heap'[i] # heap[i] => op'[1] = "append" /\ op'[2] = i]_vars
Refused == [][refused' => heap' = heap]_vars
====
