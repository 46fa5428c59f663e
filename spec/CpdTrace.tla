---- MODULE CpdTrace ----
(* Judges real TabularCPDs.  Events: op "fit" with the counts c of the data,  *)
(* op "badfit" (x and z of different lengths), and op "query".  After each,   *)
(* p[x][z] = predict over the whole universe, marg, xs and zs (the supports,  *)
(* as indices), size, args (whether the arguments are unchanged), exc.        *)
EXTENDS CpdRules, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, c, prev, bad, fin
vars == <<tid, l, c, prev, bad, fin>>
T == Traces[tid]
If(b, t) == IF b THEN {t} ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}
Read(e) == <<e.p, e.marg, Range(e.xs), Range(e.zs), e.size>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ c = <<>> /\ prev = <<>> /\ bad = {} /\ fin = FALSE
FitBad(e, k) ==
  IF e.exc # "" THEN {"EXC"} ELSE
  If(\E x \in XSeen(k) : ~FloorOK(k, T.ratio, e.p, x), "C17.floor") \cup
  If(\E x \in XSeen(k) : ~SumOK(k, e.p, x), "C17.sum") \cup
  If(\E x \in XSeen(k) : ~ExactOK(k, T.ratio, e.p, x), "C17.exact") \cup
  If(\E x \in XSeen(k) : ~OrderOK(k, e.p, x), "C17.order") \cup
  If(~UnseenOK(k, e.p), "C17.unseen") \cup
  If(~MarginOK(k, e.marg), "C17.marginal") \cup
  If(Range(e.xs) # XSeen(k) \/ Len(e.xs) # Cardinality(XSeen(k)), "C17.xsupport") \cup
  If(Range(e.zs) # ZSeen(k) \/ Len(e.zs) # Cardinality(ZSeen(k)) \/ e.size # Cardinality(ZSeen(k)), "C17.zsupport") \cup
  If(~e.args, "C17.arguments")
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     CASE e.op = "fit" -> /\ bad' = bad \cup FitBad(e, e.c) /\ c' = e.c /\ prev' = Read(e)
       [] e.op = "query" -> /\ bad' = bad \cup (IF e.exc # "" THEN {"EXC"} ELSE If(Read(e) # prev, "C17.query"))
                            /\ UNCHANGED <<c, prev>>
       [] OTHER -> /\ bad' = bad \cup If(e.exc # "ValueError", "C11.accepted") \cup
                             If(prev # <<>> /\ Read(e) # prev, "C11.effect") \cup If(~e.args, "C11.effect")
                   /\ UNCHANGED <<c, prev>>
  /\ l' = l + 1 /\ UNCHANGED <<tid, fin>>
Finish ==
  /\ l = Len(T.ev) + 1 /\ ~fin /\ fin' = TRUE
  /\ PrintT("VERDICT " \o ToJson(<<tid, bad>>))
  /\ UNCHANGED <<tid, l, c, prev, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
====
