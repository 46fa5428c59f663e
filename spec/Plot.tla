---- MODULE Plot ----
(* A run appends rounds to its history; somebody plots it now and then, arm   *)
(* after arm, which fills a canvas with curves.  A curve is                   *)
(* <<kind, arm, sequence of <<round of the x value, round of the y value>>>>. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Arms, MaxRounds, MaxIgnore,
          Skips   \* defects, to see that the invariants notice: "x" | "mid" | "cut" | "name"
VARIABLES rounds, req, ign, done, canvas, frozen
vars == <<rounds, req, ign, done, canvas, frozen>>
Seqs == {<<a>> : a \in Arms} \cup {<<a, b>> : a, b \in Arms}
Init == rounds = 1 /\ req = <<>> /\ ign = 0 /\ done = 0 /\ canvas = {} /\ frozen = 0
Round == req = <<>> /\ rounds < MaxRounds /\ rounds' = rounds + 1 /\ UNCHANGED <<req, ign, done, canvas, frozen>>
Begin == /\ req = <<>> /\ \E s \in Seqs : req' = s
         /\ \E i \in 0..MaxIgnore : ign' = i
         /\ done' = 0 /\ canvas' = {} /\ frozen' = rounds /\ UNCHANGED rounds
Cut(i) == [k \in 1..(IF i < rounds THEN rounds - i ELSE 0) |-> i + k]
Zip(xs, ys) == [k \in 1..(IF Len(xs) < Len(ys) THEN Len(xs) ELSE Len(ys)) |-> <<xs[k], ys[k]>>]
Draw == /\ req # <<>> /\ done < Len(req)
        /\ LET a == req[done + 1]
               xs == Cut(IF "x" \in Skips THEN 0 ELSE ign)
               ys == Cut(IF "cut" \in Skips /\ ign > 0 THEN ign - 1 ELSE ign)
               ms == Cut(IF "mid" \in Skips THEN 0 ELSE ign)
               l == IF "name" \in Skips THEN req[1] ELSE a
           IN canvas' = canvas \cup {<<"mid", done + 1, l, a, Zip(xs, ms)>>, <<"lo", done + 1, l, a, Zip(xs, ys)>>, <<"hi", done + 1, l, a, Zip(xs, ys)>>}
        /\ done' = done + 1 /\ UNCHANGED <<rounds, req, ign, frozen>>
End == req # <<>> /\ done = Len(req) /\ req' = <<>> /\ UNCHANGED <<rounds, ign, done, canvas, frozen>>
Next == Round \/ Begin \/ Draw \/ End
Spec == Init /\ [][Next]_vars
\* All curves show the same rounds, each at its own place, and no ignored one.
Aligned == req # <<>> => \A c \in canvas : \A k \in DOMAIN c[5] : c[5][k] = <<ign + k, ign + k>>
Complete == req # <<>> => \A c \in canvas : Len(c[5]) = (IF ign < rounds THEN rounds - ign ELSE 0)
Named == \A c \in canvas : c[3] = c[4]
Each == (req # <<>> /\ done = Len(req)) => \A i \in 1..Len(req) : \A kind \in {"mid", "lo", "hi"} : \E c \in canvas : c[1] = kind /\ c[2] = i /\ c[4] = req[i]
Unchanged == req # <<>> => rounds = frozen
====
