------------------------------ MODULE MergeTree ------------------------------
(* In which order the tiles of a problem are merged: two solved problems next to one another become one, until there is
   only one left.  The merges the library makes (recorded for every number of tiles) have to be a behaviour of this. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Traces   \* <<number of tiles, merges <<begin, split, end>>>>
VARIABLES t, solved, step
vars == <<t, solved, step>>
Tiles == Traces[t][1]
Merges == Traces[t][2]
Init == t \in 1..Len(Traces) /\ solved = {<<i, i + 1>> : i \in 0..(Traces[t][1] - 1)} /\ step = 0
Merge(b, s, e) == /\ <<b, s>> \in solved /\ <<s, e>> \in solved
                  /\ solved' = (solved \ {<<b, s>>, <<s, e>>}) \union {<<b, e>>}
Next == /\ step < Len(Merges)
        /\ Merge(Merges[step + 1][1], Merges[step + 1][2], Merges[step + 1][3])
        /\ step' = step + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
\* no merge is refused, and the last one leaves the whole problem solved
Conforms == IF step < Len(Merges)
              THEN <<Merges[step + 1][1], Merges[step + 1][2]>> \in solved /\ <<Merges[step + 1][2], Merges[step + 1][3]>> \in solved
              ELSE solved = IF Tiles = 0 THEN {} ELSE {<<0, Tiles>>}
Disjoint == Tiles <= 20 => (\A x \in solved : x[1] < x[2] /\ x[2] <= Tiles /\ (\A y \in solved : x = y \/ x[2] <= y[1] \/ y[2] <= x[1]))
=============================================================================
