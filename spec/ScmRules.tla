---- MODULE ScmRules ----
(* Structural causal models.  A model m has the order in which its variables  *)
(* are declared, the parents par[v] of every variable (in the order in which  *)
(* its mechanism expects them), the covariates cov, the treatment treat and   *)
(* the response resp.  Variables are numbers.                                 *)
EXTENDS Naturals, Sequences, FiniteSets
SRange(s) == {s[i] : i \in 1..Len(s)}

\* Every variable is declared after its parents.
Topological(m) ==
  \A i \in 1..Len(m.order) : SRange(m.par[m.order[i]]) \subseteq {m.order[j] : j \in 1..(i - 1)}

\* The interventional semantics: the sample of v in a world w, in which the
\* treatment is set to x ("own": it follows its own mechanism).
RECURSIVE Sample(_, _, _, _)
Sample(m, v, w, x) ==
  IF v = m.treat /\ x # "own" THEN <<"set", x, w>>
  ELSE <<"draw", v, w, [i \in 1..Len(m.par[v]) |-> Sample(m, m.par[v][i], w, x)]>>

\* Declarations.  d has the declared variables vars, the keys of the parents
\* (pkeys) and of the mechanisms (ckeys), and cov, treat, resp as above.
ValidDeclaration(d) ==
  /\ SRange(d.vars) \subseteq SRange(d.pkeys)
  /\ SRange(d.vars) \subseteq SRange(d.ckeys)
  /\ d.treat \in SRange(d.vars)
  /\ d.resp \in SRange(d.vars)
  /\ SRange(d.cov) \subseteq SRange(d.vars)
====
