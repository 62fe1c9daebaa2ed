-------------------------- MODULE BlockCyclicScale --------------------------
(* The two laws that carry the small exhaustive results of BlockCyclic to the full integer range:
   Periodic: one period (gs*tpb tiles) later the dealer is in the same place with every rank tpb tiles
             further;
   Homogeneous: multiplying tile sizes (block sizes) by K refines the deal K-fold and nothing else.
   Both are checked by running two dealers side by side. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS TPB, GS, K, MaxTile

VARIABLES c,    \* <<tpb, gs, src, toff>>
          a,    \* dealer with the configuration itself: [tile, owner, left, cnt]
          b,    \* dealer with block size K*tpb, advanced K tiles for each tile of a
          p     \* dealer a, one period ahead
vars == <<c, a, b, p>>

Start(tpb, gs, src, toff) ==
  [tile |-> 0, owner |-> src, left |-> tpb - toff, cnt |-> [r \in 0..(gs-1) |-> 0]]
Step(d, tpb, gs) ==
  LET last == d.left = 1 IN
  [tile |-> d.tile + 1,
   owner |-> IF last THEN (IF d.owner + 1 = gs THEN 0 ELSE d.owner + 1) ELSE d.owner,
   left |-> IF last THEN tpb ELSE d.left - 1,
   cnt |-> [d.cnt EXCEPT ![d.owner] = @ + 1]]
RECURSIVE Steps(_, _, _, _)
Steps(d, tpb, gs, n) == IF n = 0 THEN d ELSE Steps(Step(d, tpb, gs), tpb, gs, n - 1)

Init ==
  \E tpb \in 1..TPB, gs \in 1..GS : \E src \in 0..(gs-1), toff \in 0..(tpb-1) :
    /\ c = <<tpb, gs, src, toff>>
    /\ a = Start(tpb, gs, src, toff)
    /\ b = Start(K * tpb, gs, src, K * toff)
    /\ p = Steps(Start(tpb, gs, src, toff), tpb, gs, gs * tpb)
Next ==
  /\ a.tile < MaxTile
  /\ a' = Step(a, c[1], c[2])
  /\ b' = Steps(b, K * c[1], c[2], K)
  /\ p' = Step(p, c[1], c[2])
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Periodic ==
  /\ p.owner = a.owner /\ p.left = a.left /\ p.tile = a.tile + c[1] * c[2]
  /\ \A r \in 0..(c[2]-1) : p.cnt[r] = a.cnt[r] + c[1]
Homogeneous ==
  /\ b.owner = a.owner /\ b.tile = K * a.tile /\ b.left = K * a.left
  /\ \A r \in 0..(c[2]-1) : b.cnt[r] = K * a.cnt[r]
\* inside one tile of a, the refined dealer stays with the owner of a and only its count moves
HomogeneousInside ==
  \A i \in 0..(K-1) : LET d == Steps(b, K * c[1], c[2], i) IN
     /\ d.owner = a.owner
     /\ \A r \in 0..(c[2]-1) : d.cnt[r] = K * a.cnt[r] + (IF r = a.owner THEN i ELSE 0)
============================================================================
