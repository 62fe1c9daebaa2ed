----------------------------- MODULE RoundRobin -----------------------------
(* n resources in a ring with a hand pointing at one of them. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN, Depth
VARIABLES n, hand, hist, used
vars == <<n, hand, hist, used>>
Init == n \in 0..MaxN /\ hand = 0 /\ hist = <<>> /\ used = [k \in 0..(MaxN-1) |-> 0]
\* operations: 0 current, 1 next, 2 move-construct, 3 move-assign over another ring, 4 size
Op(o, h, r) == Len(hist) < Depth /\ hand' = h /\ hist' = Append(hist, <<o, r>>)
Current == n > 0 /\ Op(0, hand, hand) /\ UNCHANGED <<n, used>>
Advance == /\ n > 0 /\ LET h == IF hand + 1 = n THEN 0 ELSE hand + 1 IN Op(1, h, h) /\ used' = [used EXCEPT ![h] = @ + 1]
        /\ UNCHANGED n
Move == \E o \in {2, 3} : Op(o, hand, n) /\ UNCHANGED <<n, used>>
Size == Op(4, hand, n) /\ UNCHANGED <<n, used>>
Refused == \E o \in {0, 1} : n = 0 /\ Op(o, hand, -1) /\ UNCHANGED <<n, used>>
Next == Current \/ Advance \/ Move \/ Size \/ Refused
Spec == Init /\ [][Next]_vars
\* no resource is starved: use counts differ by at most one
Fair == \A i, j \in 0..(n-1) : used[i] - used[j] \in {-1, 0, 1}
Emit == Len(hist) = Depth => PrintT(<<"R", n, hist>>)
=============================================================================
