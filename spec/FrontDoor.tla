---- MODULE FrontDoor ----
(* The mean of the front-door score over every population of a finite family  *)
(* is the front-door effect, when the distributions of treatment and mediator  *)
(* are right, whatever the response model; and when the response and the       *)
(* distribution of the treatment are right, whatever that of the mediator.     *)
EXTENDS ParamRules
CONSTANTS Counts, Means, Guesses, ZN
VARIABLES n, mu, guess, p, p1,     \* p, p1: the distributions of z and x
          other                    \* a wrong distribution of z
Z == 1..ZN
Nx(x) == RSum([z \in Z |-> n[z][x]])
Init ==
  /\ n \in [Z -> [1..2 -> Counts]]           \* units with this z and x + 1
  /\ mu \in [Z -> [1..2 -> Means]] /\ guess \in [Z -> [1..2 -> Guesses]]
  /\ p = [z \in Z |-> <<RDiv(n[z][1], Nx(1)), RDiv(n[z][2], Nx(2))>>]
  /\ p1 = RDiv(Nx(2), RAdd(Nx(1), Nx(2)))
  /\ other \in {[z \in Z |-> <<RDiv(2 * z, ZN * (ZN + 1)), RDiv(1, ZN)>>],
                [z \in Z |-> <<RDiv(1, ZN), RDiv(2 * (ZN + 1 - z), ZN * (ZN + 1))>>]}
Next == UNCHANGED <<n, mu, guess, p, p1, other>>
Spec == Init /\ [][Next]_<<n, mu, guess, p, p1, other>>
One(m, q, z, x) == FdScore(m, q, p1, 0, m[z], q[z], x - 1, mu[z][x])
Mean(m, q) ==
  RDiv(RSum([z \in Z |-> RAdd(RMul(n[z][1], One(m, q, z, 1)), RMul(n[z][2], One(m, q, z, 2)))]), RAdd(Nx(1), Nx(2)))
MeanOK == RClose(Mean(guess, p), FdEffect(mu, p, p1), "1e-9")
RightOK == RClose(Mean(mu, p), FdEffect(mu, p, p1), "1e-9")
\* With the right response it does not matter that the distribution of z is wrong.
Robust == RClose(Mean(mu, other), FdEffect(mu, p, p1), "1e-9")
====
