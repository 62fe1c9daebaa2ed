---------------------------- MODULE RangeCursor ----------------------------
(* A cursor over the indices of a rectangular range.  The visiting order is defined by walking column
   after column; the cursor may then move in any way, and history keeps every movement with the index
   expected afterwards (past-the-end has none). *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Origins, MaxR, MaxC, Depth
VARIABLES org, sz, order, pos, hist, mode
vars == <<org, sz, order, pos, hist, mode>>
Count == sz[1] * sz[2]

RECURSIVE Walk(_, _, _)
\* sequence of indices from <<a,b>> on, column by column, inside the extent e (relative coordinates)
Walk(a, b, e) == IF e[1] = 0 \/ b = e[2] THEN <<>>
                 ELSE <<<<a, b>>>> \o (IF a + 1 < e[1] THEN Walk(a + 1, b, e) ELSE Walk(0, b + 1, e))
Init == /\ org \in Origins /\ sz \in (0..MaxR) \X (0..MaxC)
        /\ order = [k \in 1..Len(Walk(0, 0, sz)) |-> <<org[1] + Walk(0, 0, sz)[k][1], org[2] + Walk(0, 0, sz)[k][2]>>]
        /\ pos = 0 /\ hist = <<>> /\ mode = "list"
At(p) == IF p < Count THEN order[p + 1] ELSE <<-9, -9>>
Move(op, d, to) == /\ to \in 0..Count /\ pos' = to /\ Len(hist) < Depth
                   /\ hist' = Append(hist, <<op, d, to, At(to)>>) /\ mode' = "move"
                   /\ UNCHANGED <<org, sz, order>>
\* operations: 0 ++it  1 it++  2 --it  3 it--  4 it+=d  5 it-=d  6 it=it+d  7 it=d+it  8 it=it-d
Inc == \E op \in {0, 1} : Move(op, 1, pos + 1)
Dec == \E op \in {2, 3} : Move(op, 1, pos - 1)
Jump == \E d \in (-Count)..Count : \E op \in {4, 6, 7} : Move(op, d, pos + d)
Back == \E d \in (-Count)..Count : \E op \in {5, 8} : Move(op, d, pos - d)
Next == Inc \/ Dec \/ Jump \/ Back
Spec == Init /\ [][Next]_vars

NoRepeat == Len(order) = Count /\ \A a, b \in 1..Len(order) : a # b => order[a] # order[b]
InRange == \A k \in 1..Len(order) : /\ order[k][1] \in org[1]..(org[1]+sz[1]-1)
                                    /\ order[k][2] \in org[2]..(org[2]+sz[2]-1)
ColumnMajor == \A a, b \in 1..Len(order) : a < b =>
                 (order[a][2] < order[b][2] \/ (order[a][2] = order[b][2] /\ order[a][1] < order[b][1]))
Emit == CASE mode = "list" -> PrintT(<<"L", org, sz, order>>)
          [] mode = "move" /\ Len(hist) = Depth -> PrintT(<<"H", org, sz, hist>>)
          [] OTHER -> TRUE
============================================================================
