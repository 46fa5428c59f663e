---- MODULE Split ----
(* How units are divided at random: the distribution over all divisions, as   *)
(* integer weights, while one unit after the other gets its fold; twice in a  *)
(* row.  mech "deal": every unit takes one of the places that are left (a     *)
(* random permutation); "coin": every unit decides for itself (subsampling).  *)
(* LUCB's choice of c of K arms is a division into c and K - c.               *)
EXTENDS SplitRules
CONSTANTS MaxN, MaxK, Skips
VARIABLES n, s, mech, dist, i
vars == <<n, s, mech, dist, i>>
Coin == <<1, 3>>      \* of the second mechanism: weights of the two folds
AllSizes(m) == {Even(m, k) : k \in 1..MaxK} \cup {<<c, m - c>> : c \in {x \in {1, 2} : x <= m}}
Init ==
  /\ n \in 1..MaxN /\ mech \in (IF n <= 4 THEN {"deal", "coin"} ELSE {"deal"}) /\ i = 0   \* integers of TLC have 32 bits
  /\ s \in (IF mech = "deal" THEN AllSizes(n) ELSE {Coin})
  /\ dist = [a \in {<<>>} |-> 1]
\* The weight of fold j for the next unit, after the folds a.  Those of all
\* folds together are the same whatever came before, as they have to be.
Of(a) == SubSeq(a, (i \div n) * n + 1, Len(a))
Weight(a, j) ==
  IF i >= n /\ "sticky" \in Skips THEN (IF a[i - n + 1] = j THEN 1 ELSE 0)
  ELSE IF i % n = 0 /\ "anchored" \in Skips /\ mech = "deal" THEN (IF j = 1 THEN 1 ELSE 0)
  ELSE IF mech = "coin" THEN s[j]
  ELSE LET left == s[j] - Size(Of(a), j) IN
       IF "places" \in Skips
       THEN (IF left > 0 THEN 6 \div Cardinality({x \in 1..Len(s) : s[x] > Size(Of(a), x)}) ELSE 0)
       ELSE left
Next ==
  /\ i < 2 * n
  /\ LET B == {b \in {Append(a, j) : a \in DOMAIN dist, j \in 1..Len(s)} : Weight(SubSeq(b, 1, i), b[i + 1]) > 0} IN
     dist' = [b \in B |-> dist[SubSeq(b, 1, i)] * Weight(SubSeq(b, 1, i), b[i + 1])]
  /\ i' = i + 1
  /\ UNCHANGED <<n, s, mech>>
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(d, A) == IF A = {} THEN 0 ELSE LET a == CHOOSE x \in A : TRUE IN d[a] + Total(d, A \ {a})
W(A) == Total(dist, A)
All == W(DOMAIN dist)
\* After the first division:
First == i = n
Fair == First /\ mech = "deal" => DOMAIN dist = Divisions(n, s) /\ \A a, b \in DOMAIN dist : dist[a] = dist[b]
Exchange == First => \A a \in DOMAIN dist : \A u, v \in 1..n :
  LET b == [a EXCEPT ![u] = a[v], ![v] = a[u]] IN b \in DOMAIN dist /\ dist[b] = dist[a]
Marginal == First /\ mech = "deal" => \A u \in 1..n, j \in 1..Len(s) : W({a \in DOMAIN dist : a[u] = j}) * n = All * s[j]
Pairwise == First /\ mech = "deal" => \A u, v \in 1..n :
  u # v => W({a \in DOMAIN dist : a[u] = a[v]}) * n * (n - 1) = All * PairsWithin(s)
\* After the second one: it does not depend on the first, and the number of
\* those that were in fold 1 neither time falls geometrically (no arm starves).
Both == i = 2 * n
Front(a) == SubSeq(a, 1, n)
Back(a) == SubSeq(a, n + 1, 2 * n)
Independent == Both => \A a \in {Front(x) : x \in DOMAIN dist} : \A b \in {Back(x) : x \in DOMAIN dist} :
  a \o b \in DOMAIN dist /\
  dist[a \o b] * All = W({x \in DOMAIN dist : Front(x) = a}) * W({x \in DOMAIN dist : Back(x) = b})
NoStarving == Both /\ mech = "deal" => \A u \in 1..n :
  W({a \in DOMAIN dist : a[u] # 1 /\ a[n + u] # 1}) * n * n = All * (n - s[1]) * (n - s[1])
====
