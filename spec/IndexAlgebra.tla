---------------------------- MODULE IndexAlgebra ----------------------------
(* Coordinates as points of the integer plane; the predicates are set membership, not comparisons. *)
EXTENDS Integers, TLC
CONSTANTS Lo, Hi
VARIABLES x, y, o, s, phase    \* an index (x), another index (y), a sub-grid origin, a size
vars == <<x, y, o, s, phase>>
Pt == (Lo..Hi) \X (Lo..Hi)
NonNeg == (0..Hi) \X (0..Hi)
Rect(org, sz) == {<<a, b>> : a \in org[1]..(org[1]+sz[1]-1), b \in org[2]..(org[2]+sz[2]-1)}
\* corner points of the cells of the rectangle: "in or on"
Border(org, sz) == {<<a, b>> : a \in org[1]..(org[1]+sz[1]), b \in org[2]..(org[2]+sz[2])}
Init == /\ x \in Pt /\ s \in NonNeg /\ y = <<0, 0>> /\ o = <<0, 0>> /\ phase = "in"
Next == \/ phase = "in" /\ phase' = "sub" /\ o' \in NonNeg /\ x[1] >= 0 /\ x[2] >= 0 /\ UNCHANGED <<x, y, s>>
        \/ phase = "in" /\ phase' = "arith" /\ y' \in Pt /\ s = <<1, 2>> /\ UNCHANGED <<x, o, s>>
Spec == Init /\ [][Next]_vars
Emit ==
  CASE phase = "in" -> PrintT(<<"I", x, s, x \in Rect(<<0,0>>, s), x \in Border(<<0,0>>, s),
                               x[1] >= 0 /\ x[2] >= 0, Rect(<<0,0>>, s) = {}>>)
    [] phase = "sub" -> PrintT(<<"S", x, o, s, x \in Rect(o, s)>>)
    [] phase = "arith" -> PrintT(<<"A", x, y, <<x[1]+y[1], x[2]+y[2]>>, <<x[1]-y[1], x[2]-y[2]>>, x = y>>)
=============================================================================
