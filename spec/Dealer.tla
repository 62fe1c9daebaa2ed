------------------------------- MODULE Dealer -------------------------------
(* (1) Boxes of capacity d are filled with a items one at a time: the number of boxes used is the
       rounding-up quotient.
   (2) A share of pct percent of sz items, to the nearest item, halves away from zero, in units of
       1/200 item so that no rounding enters the model. *)
EXTENDS Integers, TLC
CONSTANTS MaxA, MaxD, MaxS
VARIABLES a, d, put, boxes, room, mode
vars == <<a, d, put, boxes, room, mode>>
Init == \/ mode = "box" /\ a \in 0..MaxA /\ d \in 1..MaxD /\ put = 0 /\ boxes = 0 /\ room = 0
        \/ mode = "pct" /\ a \in 0..MaxS /\ d \in 0..100 /\ put = 0 /\ boxes = 0 /\ room = 2 * a * d
PutItem == /\ mode = "box" /\ put < a /\ put' = put + 1
           /\ boxes' = IF room = 0 THEN boxes + 1 ELSE boxes
           /\ room' = IF room = 0 THEN d - 1 ELSE room - 1
           /\ UNCHANGED <<a, d, mode>>
\* take whole items while at least half an item of the share is left
Take == /\ mode = "pct" /\ room >= 100 /\ room' = room - 200 /\ boxes' = boxes + 1 /\ UNCHANGED <<a, d, put, mode>>
Next == PutItem \/ Take
Spec == Init /\ [][Next]_vars
Tight == mode = "box" => boxes * d - room = put /\ room \in 0..(d-1)
Share == mode = "pct" => boxes \in 0..a
Emit == /\ (mode = "box" /\ put = a) => PrintT(<<"D", a, d, boxes>>)
        /\ (mode = "pct" /\ room < 100) => PrintT(<<"P", a, d, boxes>>)
=============================================================================
