------------------------------- MODULE Splits -------------------------------
(* Work splitting.  A worker walks along an interval of length l carrying two cutters; each cutter drops
   its first cut at its own offset and then one cut every b positions.  The walk also counts the pieces
   a single cutter with offset 0 produces (the rounding-up quotient) and, for percentages, the position
   reached after a share of the walk. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxL, MaxB, K,
          Extra   \* additional <<l, b, o1, o2>>
VARIABLES l, b, o1, o2, p, n1, n2, cuts, cutsK
vars == <<l, b, o1, o2, p, n1, n2, cuts, cutsK>>
Init == /\ \/ l \in 1..MaxL /\ b \in 1..MaxB /\ o1 \in 0..b /\ o2 \in 0..b
           \/ \E e \in Extra : l = e[1] /\ b = e[2] /\ o1 = e[3] /\ o2 = e[4]
        /\ p = 0 /\ n1 = o1 /\ n2 = o2 /\ cuts = <<>> /\ cutsK = <<>>
\* n1, n2: the distance of the cutters to their next cut
Cut == p = 0 \/ p = l \/ n1 = 0 \/ n2 = 0
Walk == /\ p <= l /\ p' = p + 1
        /\ n1' = IF n1 = 0 THEN b - 1 ELSE n1 - 1
        /\ n2' = IF n2 = 0 THEN b - 1 ELSE n2 - 1
        /\ cuts' = IF Cut THEN Append(cuts, p) ELSE cuts
        \* the same walk on an interval K times as long with a K times coarser step: cuts can only
        \* appear at multiples of K
        /\ cutsK' = IF Cut THEN Append(cutsK, K * p) ELSE cutsK
        /\ UNCHANGED <<l, b, o1, o2>>
Next == Walk
Spec == Init /\ [][Next]_vars
Done == p = l + 1
Closed == {0, l} \cup {x \in 0..l : x >= o1 /\ (x - o1) % b = 0} \cup {x \in 0..l : x >= o2 /\ (x - o2) % b = 0}
Increasing == \A i, j \in 1..Len(cuts) : i < j => cuts[i] < cuts[j]
Exact == Done => {cuts[i] : i \in 1..Len(cuts)} = Closed
ClosedK == {0, K*l} \cup {x \in 0..(K*l) : x >= K*o1 /\ (x - K*o1) % (K*b) = 0} \cup {x \in 0..(K*l) : x >= K*o2 /\ (x - K*o2) % (K*b) = 0}
Scales == Done => {cutsK[i] : i \in 1..Len(cutsK)} = ClosedK
\* no piece is longer than a block
Fine == Done => \A i \in 1..(Len(cuts) - 1) : cuts[i+1] - cuts[i] <= b
Emit == Done => PrintT(<<"I", l, b, o1, o2, cuts>>)
=============================================================================
