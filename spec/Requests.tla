---- MODULE Requests ----
(* The life of a request: it is rejected, or accepted and then run.  A run    *)
(* takes samples until it has used more than its limit or, when a confidence  *)
(* is asked for, its intervals separate (sooner or later they do).            *)
EXTENDS RequestRules
CONSTANTS Probs, Tols, Confs, Limits, Upr, MaxSamples,
          Skips   \* defects: "accept" accepts everything
VARIABLES req, phase, samples
vars == <<req, phase, samples>>
Init == /\ req \in [error_prob : Probs, error_tol : Tols, confidence : Confs, limit : Limits]
        /\ phase = "asked" /\ samples = 0
Answer == /\ phase = "asked"
          /\ phase' = IF ValidRequest(req) \/ "accept" \in Skips THEN "running" ELSE "rejected"
          /\ UNCHANGED <<req, samples>>
Separated == req.confidence # "None" /\ samples >= MaxSamples
Over == ~Unlimited(req.limit) /\ ~RLe(samples, req.limit)
Sample == /\ phase = "running" /\ ~Separated /\ ~Over
          /\ samples' = IF samples >= MaxSamples THEN samples ELSE samples + Upr
          /\ UNCHANGED <<req, phase>>
Stop == phase = "running" /\ (Separated \/ Over) /\ phase' = "stopped" /\ UNCHANGED <<req, samples>>
Next == Answer \/ Sample \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EveryRunEnds == (phase = "asked") ~> (phase \in {"rejected", "stopped"})
OnlyInvalid == phase = "rejected" => ~ValidRequest(req)
====
