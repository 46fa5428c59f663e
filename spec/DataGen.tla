---- MODULE DataGen ----
EXTENDS Data
VARIABLE script
GInit == Init /\ script = <<>>
Pick1(S) == {RandomElement(S)}     \* one choice instead of all: scripts only
Few ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ Len(heap) < 3 /\ \E n \in Pick1(0..MaxRows), dim \in Pick1(1..MaxCols), e, r \in BOOLEAN : New(n, dim, e, r)
     \/ \E i \in Pick1(1..Len(heap)) :
          \/ \E j \in Pick1(1..Len(heap)) : DoAppend(i, j)
          \/ \E k \in Pick1(1..3) : Fold(i, k)
          \/ \E p \in Pick1({0, 2, 4}) : Sub(i, p)
          \/ \E a \in Pick1(0..2), b \in Pick1(2..MaxRows) : Slice(i, a, b)
          \/ \E len \in Pick1(1..2) : \E js \in Pick1([1..len -> 1..heap[i].nf]) : Mask(i, js)
          \/ \E j \in Pick1(1..heap[i].nf) : Remove(i, j)
          \/ Invalid(i, "badfold") \/ Invalid(i, "badsub")
GNext == (IF heap = <<>> THEN Next ELSE Few) /\ script' = Append(script, op')
GSpec == GInit /\ [][GNext]_<<vars, script>>
OneAssign(n, k) == {[i \in 1..n |-> ((i - 1) % k) + 1]} \cup {[i \in 1..n |-> 1]} \cup {[i \in 1..n |-> 2]}
EmitOK == ops >= MaxOps - 2 => PrintT("SCRIPT " \o ToString(script))
====
