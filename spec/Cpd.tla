---- MODULE Cpd ----
(* Fitting by raising too small probabilities to the floor and taking what    *)
(* they gain equally from the others, until none is too small; for all small  *)
(* tables of counts, fitted one after the other.                              *)
EXTENDS CpdRules, TLC
CONSTANTS NX, NZ, MaxCount, Ratios, MaxFits
VARIABLES c, ratio, p, work, fits
vars == <<c, ratio, p, work, fits>>
Tables == {t \in [1..NX -> [1..NZ -> 0..MaxCount]] : \E x \in 1..NX : SumSeq(t[x]) > 0}
\* The first row takes all values; the others are chosen from few.
Start(t) == [x \in 1..NX |-> [z \in 1..NZ |->
              IF x \in XSeen(t) /\ z \in ZSeen(t) THEN Freq(t, x, z) ELSE R(0)]]
Init == /\ c \in Tables /\ ratio \in Ratios /\ p = Start(c)
        /\ work = [x \in 1..NX |-> IF x \in XSeen(c) THEN ZSeen(c) ELSE {}] /\ fits = 1
\* work[x] are the values that are not at the floor; one round of raising.
Low(x) == {z \in work[x] : RLt(p[x][z], RSub(Floor(c, ratio), "1e-12"))}
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN R(0) ELSE LET z == CHOOSE z \in S : TRUE IN RAdd(f[z], SumSet(S \ {z}, f))
Raise(x) ==
  /\ Low(x) # {}
  /\ LET rest == work[x] \ Low(x)
         gain == SumSet(Low(x), [z \in Low(x) |-> RSub(Floor(c, ratio), p[x][z])])
     IN /\ p' = [p EXCEPT ![x] = [z \in 1..NZ |->
                  IF z \in Low(x) THEN Floor(c, ratio)
                  ELSE IF z \in rest THEN RSub(p[x][z], RDiv(gain, Cardinality(rest))) ELSE p[x][z]]]
        /\ work' = [work EXCEPT ![x] = rest]
  /\ UNCHANGED <<c, ratio, fits>>
Done == \A x \in 1..NX : Low(x) = {}
Refit == /\ Done /\ fits < MaxFits /\ fits' = fits + 1
         /\ c' \in Tables /\ UNCHANGED ratio
         /\ p' = [x \in 1..NX |-> [z \in 1..NZ |->
              IF x \in XSeen(c') /\ z \in ZSeen(c') THEN Freq(c', x, z) ELSE R(0)]]
         /\ work' = [x \in 1..NX |-> IF x \in XSeen(c') THEN ZSeen(c') ELSE {}]
Next == (\E x \in 1..NX : Raise(x)) \/ Refit
Spec == Init /\ [][Next]_vars

SumsAlways == \A x \in XSeen(c) : SumOK(c, p, x)
Finished == Done => /\ \A x \in XSeen(c) : FloorOK(c, ratio, p, x) /\ ExactOK(c, ratio, p, x) /\ OrderOK(c, p, x)
                    /\ UnseenOK(c, p)
NeverEmpty == \A x \in XSeen(c) : Low(x) # work[x] \/ work[x] = {}
====
