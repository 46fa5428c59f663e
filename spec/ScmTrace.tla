---- MODULE ScmTrace ----
(* Judges real structural causal models whose mechanisms are recorders.       *)
(* A trace has the model m, extra (whether it declares more than its          *)
(* variables), and events:                                                    *)
(*  "new": d (a declaration), exc                                             *)
(*  "gen", "eff": n, fail (the number of the call that fails, 0 if none),     *)
(*    calls (v, n, args, out, mean, draw), some (only some units are shown), exc,  *)
(*    cov, exp, rsp, eff, own (the mechanisms *)
(*    are the declared ones), same (nothing else of the model has changed).   *)
(* draw is what the mechanism drew from the global random generator.          *)
(* A sample is a sequence of rows of integers; n is its number of units.      *)
EXTENDS ScmRules, Num, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, bad, dirty, fin
vars == <<tid, l, bad, dirty, fin>>
T == Traces[tid]
M == T.m
If(c, t) == IF c THEN {t} ELSE {}
Vars == SRange(M.order)
\* The calls of one world: the calls from index a to b.
CallsOf(e, v, a, b) == {k \in a..b : e.calls[k].v = v}
One(S) == CHOOSE k \in S : TRUE
\* The sample that call k has received for the parent p.
ArgOK(e, k, i, a, x) ==
  LET p == M.par[e.calls[k].v][i]
      arg == e.calls[k].args[i]
      src == CallsOf(e, p, a, k - 1)
  IN IF p = M.treat /\ x >= 0
     THEN Len(arg) = e.n /\ \A r \in 1..Len(arg) : \A c \in 1..Len(arg[r]) : arg[r][c] = x
     ELSE src # {} /\ arg = e.calls[One(src)].out
ArgsOK(e, a, b, x) ==
  \A k \in a..b : /\ Len(e.calls[k].args) = Len(M.par[e.calls[k].v])
                  /\ \A i \in 1..Len(e.calls[k].args) : ArgOK(e, k, i, a, x)
CountOK(e, a, b, S) == \A v \in Vars : Cardinality(CallsOf(e, v, a, b)) = IF v \in S THEN 1 ELSE 0
UnitsOK(e) == \A k \in 1..Len(e.calls) : e.calls[k].n = e.n

\* The columns of the samples of the variables vs, side by side.
RECURSIVE Join(_, _, _)
Join(e, vs, r) == IF vs = <<>> THEN <<>>
                  ELSE e.calls[One(CallsOf(e, Head(vs), 1, Len(e.calls)))].out[r] \o Join(e, Tail(vs), r)
Column(e, v) == [r \in 1..e.n |-> e.calls[One(CallsOf(e, v, 1, Len(e.calls)))].out[r][1]]

\* A model that is not in order is rejected, unless a mechanism fails before.
Unordered(e) == IF e.fail > 0 THEN e.exc = "" ELSE e.exc # "ValueError"
GenBad(e) ==
  IF ~Topological(M)
  THEN If(Unordered(e), "C22.order") \cup If(Unordered(e), "C11.accepted") \cup
       If(~e.own \/ ~e.same, "C22.model")
  ELSE IF e.fail > 0
  THEN If(e.exc = "", "C22.failure") \cup If(~e.own \/ ~e.same, "C22.model")
  ELSE IF e.exc # "" THEN {"C22.exception", "C11.refused"}
  ELSE IF ~CountOK(e, 1, Len(e.calls), Vars) THEN {"C22.once"}
  ELSE If(~UnitsOK(e), "C22.units") \cup If(~ArgsOK(e, 1, Len(e.calls), 0 - 1), "C22.parents") \cup
       If(e.cov # [r \in 1..e.n |-> Join(e, M.cov, r)], "C22.covariates") \cup
       If(e.exp # Column(e, M.treat), "C22.exposure") \cup
       If(e.rsp # Column(e, M.resp), "C22.response") \cup
       If(~e.own \/ ~e.same, "C22.model")

Half(e) == Len(e.calls) \div 2
Others == Vars \ {M.treat}
MeanOf(e, v, a, b, x) == IF v = M.treat THEN R(x)
                         ELSE IF e.some THEN R(e.calls[One(CallsOf(e, v, a, b))].mean)
                         ELSE RMean([r \in 1..e.n |-> e.calls[One(CallsOf(e, v, a, b))].out[r][1]])
Diff(e, h, L, first) ==
  LET t == IF first THEN MeanOf(e, M.resp, 1, h, 1) ELSE MeanOf(e, M.resp, h + 1, L, 1)
      c == IF first THEN MeanOf(e, M.resp, h + 1, L, 0) ELSE MeanOf(e, M.resp, 1, h, 0)
  IN RSub(t, c)
\* The treated world may come first or second.
EffOK(e, h, L, first) ==
  /\ ArgsOK(e, 1, h, IF first THEN 1 ELSE 0) /\ ArgsOK(e, h + 1, L, IF first THEN 0 ELSE 1)
  /\ RClose(e.eff, Diff(e, h, L, first), "1e-9")
EffBad(e) ==
  LET L == Len(e.calls)
      h == Half(e)
  IN
  IF ~Topological(M)
  THEN If(Unordered(e), "C23.order") \cup If(~e.own, "C23.restored") \cup If(~e.same, "C23.model")
  ELSE If(~e.own, "C23.restored") \cup If(~e.same, "C23.model") \cup
       If(\E k \in 1..L : e.calls[k].v = M.treat, "C23.mechanism") \cup
       IF e.fail > 0 THEN If(e.exc = "", "C23.failure")
       ELSE IF e.exc # "" THEN {"C23.exception"}
       ELSE IF ~(CountOK(e, 1, h, Others) /\ CountOK(e, h + 1, L, Others)) THEN {"C23.worlds"}
       ELSE If(~UnitsOK(e), "C23.units") \cup
            If(~\E first \in BOOLEAN : EffOK(e, h, L, first), "C23.effect")

\* No operation draws what an earlier one has drawn: samples are independent.
Draws(e) == IF e.op = "new" THEN {} ELSE {e.calls[k].draw : k \in 1..Len(e.calls)}
Repeats(i) == \E j \in 1..(i - 1) : Draws(T.ev[j]) \cap Draws(T.ev[i]) # {}
After(i) == \E j \in 1..(i - 1) : T.ev[j].op = "eff" /\ Draws(T.ev[j]) \cap Draws(T.ev[i]) # {}
DrawBad(i) == If(Repeats(i), "C22.repeated") \cup If(After(i), "C23.repeated")

Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     CASE e.op = "new" ->
            /\ bad' = bad \cup (IF ValidDeclaration(e.d) THEN If(e.exc # "", "C11.refused")
                                ELSE If(e.exc # "ValueError", "C11.accepted"))
            /\ UNCHANGED dirty
       [] e.op = "gen" ->
            /\ bad' = bad \cup GenBad(e) \cup DrawBad(l) \cup If(dirty /\ GenBad(e) # {}, "C23.after")
            /\ UNCHANGED dirty
       [] OTHER -> bad' = bad \cup EffBad(e) \cup DrawBad(l) /\ dirty' = TRUE
  /\ l' = l + 1 /\ UNCHANGED <<tid, fin>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ dirty = FALSE /\ fin = FALSE
Finish ==
  /\ l = Len(T.ev) + 1 /\ ~fin /\ fin' = TRUE
  /\ PrintT("VERDICT " \o ToJson(<<tid, bad>>))
  /\ UNCHANGED <<tid, l, bad, dirty>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
====
