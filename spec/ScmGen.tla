---- MODULE ScmGen ----
(* Models and the operations on them, as scenarios for the real code.         *)
EXTENDS Scm
VARIABLES hist
gvars == <<vars, hist>>
GInit == Init /\ hist = <<>>
GNext == /\ Next
         /\ hist' = IF res' # None /\ res = None
                    THEN Append(hist, <<IF phase = "gen" THEN "gen" ELSE "eff", res'[1], Len(calls')>>) ELSE hist
GSpec == GInit /\ [][GNext]_gvars
\* Only models whose variables are in order: these can be drawn from.
GOrdered == GInit /\ Topological(m) /\ [][GNext]_gvars
Emit == (phase = "idle" /\ ops = MaxOps /\ res # None) =>
          PrintT("SCRIPT " \o ToString(<<m.par, m.treat, m.resp, m.cov, hist>>))
====
