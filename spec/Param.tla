---- MODULE Param ----
(* The life of a nuisance parameter: it is fitted on data sets, of which only *)
(* the numbers of treated and control units matter here, and reset.           *)
EXTENDS ParamRules
CONSTANTS Kinds, Needs, MaxCount, MaxOps
VARIABLES kind, need, ready, model, recent, log, last
vars == <<kind, need, ready, model, recent, log, last>>

Fresh == ready = FALSE /\ model = 0 /\ recent = 0
Init ==
  /\ kind \in Kinds /\ need \in Needs
  /\ Fresh /\ log = <<>> /\ last = "init"

\* log[i] is <<"fit", t, c>>, <<"bad", 0, 0>>, <<"score", t, c>> or <<"reset", 0, 0>>;
\* data sets are named by their position in it.
Fit(t, c) ==
  /\ log' = Append(log, <<"fit", t, c>>)
  /\ recent' = Len(log) + 1
  /\ IF Enough(kind, need, t, c)
     THEN ready' = TRUE /\ model' = Len(log) + 1
     ELSE UNCHANGED <<ready, model>>
  /\ last' = "fit" /\ UNCHANGED <<kind, need>>
Bad ==   \* data of another dimension
  /\ log' = Append(log, <<"bad", 0, 0>>) /\ last' = "bad"
  /\ UNCHANGED <<kind, need, ready, model, recent>>
Score(t, c) ==
  /\ t + c > 0
  /\ log' = Append(log, <<"score", t, c>>) /\ last' = "score"
  /\ UNCHANGED <<kind, need, ready, model, recent>>
Reset ==
  /\ log' = Append(log, <<"reset", 0, 0>>)
  /\ ready' = FALSE /\ model' = 0 /\ recent' = 0 /\ last' = "reset"
  /\ UNCHANGED <<kind, need>>
Next ==
  /\ Len(log) < MaxOps
  /\ \/ \E t, c \in 0..MaxCount : Fit(t, c) \/ Score(t, c)
     \/ Bad \/ Reset
Spec == Init /\ [][Next]_vars

Since == {i \in 1..Len(log) : \A j \in i + 1..Len(log) : log[j][1] # "reset"}
Good == {i \in Since : log[i][1] = "fit" /\ Enough(kind, need, log[i][2], log[i][3])}
\* Ready exactly after an enough fit, and the model is that of the latest one.
ReadyOK == ready <=> Good # {}
LatestOK == model = IF Good = {} THEN 0 ELSE CHOOSE i \in Good : \A j \in Good : j <= i
RecentOK == recent >= model
LikeNew == last = "reset" => Fresh
\* Nothing but fits and resets changes what is computed.
Pure == [][last' \in {"bad", "score"} => UNCHANGED <<ready, model, recent>>]_vars
Insufficient == [][(last' = "fit" /\ ~Enough(kind, need, log'[Len(log')][2], log'[Len(log')][3]))
                   => UNCHANGED <<ready, model>>]_vars
====
