---- MODULE DataTrace ----
(* Judges sequences of operations on real ExpData objects.  Every event has   *)
(* op (as in Data.tla), exc, before (the number of objects), heap (all        *)
(* objects after the operation: cov, exp, rsp, e, r, nf, n, len, dims), and    *)
(* same (whether arguments such as index lists are unchanged).  Each g units  *)
(* in a row are equal.                                                        *)
EXTENDS DataRules, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, heap, bad, fin
vars == <<tid, l, heap, bad, fin>>
T == Traces[tid]
If(c, t) == IF c THEN {t} ELSE {}
Clean(o) == [cov |-> o.cov, exp |-> o.exp, rsp |-> o.rsp, e |-> o.e, r |-> o.r, nf |-> o.nf, n |-> o.n]

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ heap = <<>> /\ bad = {} /\ fin = FALSE

Judge(e) ==
  LET o == e.op
      kind == o[1]
      i == o[2]
      n0 == Len(heap)
      hp == [x \in 1..Len(e.heap) |-> Clean(e.heap[x])]
      res == SubSeq(hp, n0 + 1, Len(hp))
      d == heap[i]
      tag == IF kind \in {"mask", "remove", "identity"} THEN "C16" ELSE "C15"
      \* everything that existed stays, except the target of an append
      others(exc) == If(\E x \in 1..n0 : x # exc /\ hp[x] # heap[x], tag \o ".changed")
      inval == If(e.exc = "", "C11.accepted") \cup If(e.exc # "" /\ e.exc # "ValueError", "C11.error") \cup
               If(\E x \in 1..n0 : hp[x] # heap[x], "C11.effect") \cup
               If(kind = "append" /\ \E x \in 1..n0 : hp[x] # heap[x], "C15.effect")
      lens == If(\E x \in 1..Len(e.heap) : e.heap[x].len # e.heap[x].n \/ ~Consistent(hp[x]), tag \o ".lengths")
      fine(b) == IF e.exc # "" THEN {tag \o ".exception", "C11.refused"} ELSE b
      one(want) == If(Len(res) # 1, tag \o ".result") \cup
                   If(Len(res) = 1 /\ res[1] # want, tag \o "." \o kind)
  IN
  CASE kind = "new" -> fine(one(Make([x \in 1..o[2] |-> (o[6] + x - 1) \div T.g + 1], [x \in 1..o[3] |-> x - 1], o[4] = 1, o[5] = 1))
                            \cup others(0) \cup lens)
    [] kind = "append" ->
         IF CanAppend(d, heap[o[3]])
         THEN fine(If(hp[i] # Append2(d, heap[o[3]]), "C15.append") \cup If(~e.same, "C15.shared") \cup others(i) \cup lens)
         ELSE inval
    [] kind = "fold" -> fine(If(Len(res) # o[3], "C15.result") \cup
                             If(~Partition(d, res), "C15.partition") \cup
                             If(~EvenSizes(res), "C15.sizes") \cup others(0) \cup lens)
    [] kind = "sub" -> fine(If(Len(res) # 2, "C15.result") \cup
                            (IF Len(res) # 2 THEN {} ELSE
                             If(~Partition(d, res), "C15.partition") \cup
                             \* o[3]/1000 of the units, roughly
                             If(o[3] = 0 /\ res[1].n > 0, "C15.proportion") \cup
                             If(o[3] = 1000 /\ res[2].n > 0, "C15.proportion") \cup
                             If(d.n >= 400 /\ (res[1].n * 1000 - o[3] * d.n > 250 * d.n
                                               \/ res[1].n * 1000 - o[3] * d.n < -250 * d.n), "C15.proportion"))
                            \cup others(0) \cup lens)
    [] kind = "pick" -> fine(one(Select(d, e.pos)) \cup others(0) \cup lens)
    [] kind = "mask" -> fine(one(Columns(d, e.pos)) \cup others(0) \cup lens \cup If(~e.same, "C16.arguments"))
    [] kind = "remove" -> fine(one(Columns(d, e.pos)) \cup others(0) \cup lens \cup If(~e.same, "C16.arguments"))
    [] kind = "identity" -> fine(one(d) \cup others(0) \cup lens)
    [] OTHER -> inval

Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         \* with columns of different lengths, nothing else can be compared
         broken == \/ Len(e.heap) < Len(heap)
                   \/ \E x \in 1..Len(e.heap) : e.heap[x].len # e.heap[x].n \/ ~Consistent(Clean(e.heap[x]))
         tag == IF e.op[1] \in {"mask", "remove", "identity"} THEN "C16" ELSE "C15"
         bads == e.op[1] \in {"badfold", "badsub"}
                 \/ (e.op[1] = "append" /\ ~CanAppend(heap[e.op[2]], heap[e.op[3]]))
     IN IF broken
        THEN /\ bad' = bad \cup {tag \o ".lengths"} \cup If(bads, "C11.effect")
             /\ heap' = heap /\ l' = Len(T.ev) + 1
        ELSE /\ bad' = bad \cup Judge(e)
             /\ heap' = [x \in 1..Len(e.heap) |-> Clean(e.heap[x])]
             /\ l' = l + 1
  /\ UNCHANGED <<tid, fin>>
Finish ==
  /\ l = Len(T.ev) + 1 /\ ~fin /\ fin' = TRUE
  /\ PrintT("VERDICT " \o ToJson(<<tid, bad>>))
  /\ UNCHANGED <<tid, l, heap, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
====
