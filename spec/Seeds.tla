---- MODULE Seeds ----
(* Building random objects.  An object consists of components, each made of   *)
(* draws.  Draws come from a stream that the seed starts, at increasing       *)
(* positions; anything else may draw from the global stream at any time.      *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS SeedSet, Components, Draws, MaxGlobal, MaxBuilds,
          Skips   \* "global": a draw may come from the global stream; "restart": every component starts the stream anew
VARIABLES gpos, cur, seed, pos, built
vars == <<gpos, cur, seed, pos, built>>
Init == gpos = 0 /\ cur = <<>> /\ seed = 0 /\ pos = 0 /\ built = {}
Elsewhere == gpos < MaxGlobal /\ gpos' = gpos + 1 /\ UNCHANGED <<cur, seed, pos, built>>
Begin(s) == /\ seed = 0 /\ Cardinality(built) < MaxBuilds
            /\ seed' = s /\ cur' = <<>> /\ pos' = 0 /\ UNCHANGED <<gpos, built>>
Own == /\ cur' = Append(cur, <<"own", seed, pos>>)
       /\ pos' = IF "restart" \in Skips /\ (Len(cur) + 1) % Draws = 0 THEN 0 ELSE pos + 1
       /\ UNCHANGED <<gpos, seed, built>>
Glob == /\ "global" \in Skips /\ gpos < MaxGlobal
        /\ cur' = Append(cur, <<"global", 0, gpos>>) /\ gpos' = gpos + 1 /\ UNCHANGED <<seed, pos, built>>
Draw == seed # 0 /\ Len(cur) < Components * Draws /\ (Own \/ Glob)
Done == /\ seed # 0 /\ Len(cur) = Components * Draws
        /\ built' = built \cup {<<seed, cur>>} /\ seed' = 0 /\ cur' = <<>> /\ UNCHANGED <<gpos, pos>>
Next == Elsewhere \/ (\E s \in SeedSet : Begin(s)) \/ Draw \/ Done
Spec == Init /\ [][Next]_vars
Determined == \A a, b \in built : a[1] = b[1] => a[2] = b[2]
Different == \A a, b \in built : a[1] # b[1] => \A i \in 1..Len(a[2]) : a[2][i] # b[2][i]
Component(o, k) == SubSeq(o, (k - 1) * Draws + 1, k * Draws)
Separate == \A a \in built : \A k, j \in 1..Components : k # j => Component(a[2], k) # Component(a[2], j)
====
