------------------------ MODULE DistributionLaws ------------------------
(* Laws that carry the tables of Distribution.tla to arguments far beyond what can be dealt:
     - a whole cycle of ghosts (every rank one block) brings the dealer back to the same hand, hence
       any number of cycles does (induction on the number);
     - scaling tile size, offset and length by K scales elements and leaves owners and tiles as they are. *)
EXTENDS SubDistribution
CONSTANT K

Cycle(c) == c[2] * c[3] * c[4]
Shift(c) == <<c[1], c[2], c[3], c[4], c[5], c[6] + Cycle(c)>>
Scale(c) == <<c[1] * K, c[2] * K, c[3], c[4], c[5], c[6] * K>>
CycleNeutral ==
  \A k \in 1..2 : LET c == pair[k] IN
    /\ DealAll(Shift(c), Fresh(Shift(c)), <<>>) = DealAll(c, Fresh(c), <<>>)
    /\ HandAt(Shift(c), Fresh(Shift(c))) = HandAt(c, Fresh(c))
Scaling ==
  \A k \in 1..2 : LET c == pair[k]
                      a == DealAll(c, Fresh(c), <<>>)
                      b == DealAll(Scale(c), Fresh(Scale(c)), <<>>)
    IN /\ Len(a) = Len(b)
       /\ \A i \in 1..Len(a) : b[i] = <<a[i][1], a[i][2] * K, a[i][3] * K>>
LawNext == FALSE /\ UNCHANGED vars
LawSpec == Init /\ [][LawNext]_vars
============================================================================
