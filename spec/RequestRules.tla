---- MODULE RequestRules ----
(* Which bandit algorithms may be requested.  Numbers are decimal strings of  *)
(* Num.tla, "None" is None.                                                    *)
EXTENDS Naturals, Sequences, Num
Unit(p) == ~RIsNaN(p) /\ RLt(0, p) /\ RLt(p, 1)
Unlimited(l) == l = "None" \/ l = "Infinity"
CanEnd(r) == r.confidence # "None" \/ ~Unlimited(r.limit)
ValidRequest(r) ==
  /\ Unit(r.error_prob)
  /\ RLe(0, r.error_tol)
  /\ r.confidence = "None" \/ Unit(r.confidence)
  /\ CanEnd(r)
====
