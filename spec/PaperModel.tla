---- MODULE PaperModel ----
(* Explores the paths of the graph of the paper's examples.                     *)
EXTENDS PaperGraph
CONSTANTS MaxM,
          Skips   \* "omit": a back-door path is not adjusted for
                  \* "front": the front-door arm does not adjust for the treatment
                  \* "direct": the response has the treatment as a parent
                  \* "collide": the arms adjust for Z_0, too
VARIABLES M, ch, path
vars == <<M, ch, path>>
Adjusted == {IF ch[i] = "Z" THEN Z(i) ELSE V(i) : i \in {j \in DOMAIN ch : ~(j = M /\ "omit" \in Skips)}}
            \cup (IF "collide" \in Skips THEN {Z(0)} ELSE {})
E(a, b) == Edge(a, b, M) \/ ("direct" \in Skips /\ a = X /\ b = Y)
Init == M \in 1..MaxM /\ ch \in [1..M -> {"Z", "V"}] /\ path \in {<<X>>, <<Z(0)>>}
Walk == \E v \in Vars(M) :
          /\ \A k \in 1..Len(path) : path[k] # v
          /\ E(path[Len(path)], v) \/ E(v, path[Len(path)])
          /\ path[Len(path)] # Y
          /\ path' = Append(path, v) /\ UNCHANGED <<M, ch>>
Spec == Init /\ [][Walk]_vars
Ends(a, b) == Len(path) > 1 /\ path[1] = a /\ path[Len(path)] = b
IntoFirst == E(path[2], path[1])
Directed == \A k \in 1..(Len(path) - 1) : E(path[k], path[k + 1])
\* Back-door criterion for every choice.
BackDoor == Ends(X, Y) /\ IntoFirst => Blocked(path, Adjusted, M)
NoDescendants == Adjusted \cap Descendants(X, M) = {}
\* Front-door criterion for Z_0.
Intercepts == Ends(X, Y) /\ Directed => \E k \in 1..Len(path) : path[k] = Z(0)
FrontOpen == Ends(X, Z(0)) /\ IntoFirst => Blocked(path, {}, M)
FrontClosed == Ends(Z(0), Y) /\ IntoFirst => Blocked(path, IF "front" \in Skips THEN {} ELSE {X}, M)
====
