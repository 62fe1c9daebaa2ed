----------------------------- MODULE Allocation -----------------------------
(* Where the elements of the local part of a distributed matrix are stored.
   One dimension: m elements are cut into blocks of B elements and blocks into tiles of T elements; blocks are dealt to
   P processes starting with process S.  Process R keeps, in order, the tiles it was dealt.
   Layouts: "col"    one piece of storage for the whole local matrix, column after column, distance ld between columns
            "block"  one piece per local block, each stored column after column
            "tile"   one piece per tile
   ld is the least possible value plus a padding chosen by the caller. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS RowSizes, ColSizes, Shapes, MaxP, Pads, Thin, Offsets
VARIABLES row, col, layout, pad
vars == <<row, col, layout, pad>>
Min(a, b) == IF a < b THEN a ELSE b
\* a dimension: [m, B, T, P, S, R, f]; f: the part starts f elements after a block boundary (0 for a whole matrix)
Dims(sizes, offs) == {[m |-> m, B |-> s[1] * s[2], T |-> s[1], P |-> p, S |-> q, R |-> r, f |-> f] :
                m \in sizes, s \in Shapes, p \in 1..MaxP, q \in 0..(MaxP - 1), r \in 0..(MaxP - 1), f \in offs}
Ok(d) == d.S < d.P /\ d.R < d.P /\ d.f < d.B
\* the elements of a dimension that process R holds
Mine(d) == SelectSeq([i \in 1..d.m |-> i - 1], LAMBDA i : (((i + d.f) \div d.B) + d.S) % d.P = d.R)
TileNr(d, i) == (i + d.f) \div d.T
BlockNr(d, i) == (i + d.f) \div d.B
\* its tiles: <<first local element, size, number of its block>>
RECURSIVE TilesFrom(_, _, _)
TilesFrom(d, els, k) ==
  IF k > Len(els) THEN <<>>
  ELSE LET same == {j \in k..Len(els) : TileNr(d, els[j]) = TileNr(d, els[k])}
       IN <<<<k - 1, Cardinality(same), BlockNr(d, els[k])>>>> \o TilesFrom(d, els, k + Cardinality(same))
Tiles(d) == TilesFrom(d, Mine(d), 1)
First(ts, b) == LET s == {t \in 1..Len(ts) : ts[t][3] = b} IN ts[CHOOSE t \in s : \A u \in s : t <= u][1]
Extent(ts, b) == LET s == {t \in 1..Len(ts) : ts[t][3] = b} IN Cardinality(UNION {ts[t][1]..(ts[t][1] + ts[t][2] - 1) : t \in s})
----------------------------------------------------------------------------
Init == /\ row \in {d \in Dims(RowSizes, Offsets) : Ok(d)} /\ col \in {d \in Dims(ColSizes, Offsets) : Ok(d)}
        /\ (row.m * 7919 + row.B * 1543 + row.T * 389 + row.R * 97 + row.P * 193 + row.S * 769 + row.f * 3079
             + col.m * 6151 + col.B * 12289 + col.T * 24593 + col.R * 49157 + col.P * 98317 + col.S * 196613 + col.f * 393241) % Thin = 0
        /\ layout \in {"col", "block", "tile"} /\ pad \in Pads
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RT == Tiles(row)
CT == Tiles(col)
\* the storage of tile (i, j): <<piece, position of its first element, ld>>
Place(i, j, rt, ct) ==
  CASE layout = "col"   -> LET ld == Len(Mine(row)) + pad IN <<<<0, 0>>, rt[i][1] + ld * ct[j][1], ld>>
    [] layout = "block" -> LET bi == rt[i][3] bj == ct[j][3] ld == Extent(rt, bi) + pad
                           IN <<<<bi, bj>>, (rt[i][1] - First(rt, bi)) + ld * (ct[j][1] - First(ct, bj)), ld>>
    [] layout = "tile"  -> <<<<i, j>>, 0, rt[i][2] + pad>>
Need(i, j, rt, ct) == Place(i, j, rt, ct)[2] + Place(i, j, rt, ct)[3] * (ct[j][2] - 1) + rt[i][2]
Cells == LET rt == RT ct == CT IN
         UNION {{<<Place(i, j, rt, ct)[1], Place(i, j, rt, ct)[2] + a + Place(i, j, rt, ct)[3] * b>> : a \in 0..(rt[i][2] - 1), b \in 0..(ct[j][2] - 1)}
                : i \in 1..Len(rt), j \in 1..Len(ct)}
\* different elements at different places
NoOverlap == Cardinality(Cells) = Len(Mine(row)) * Len(Mine(col))
\* the tiles cover the local elements
Cover == Len(Mine(row)) = Cardinality(UNION {RT[i][1]..(RT[i][1] + RT[i][2] - 1) : i \in 1..Len(RT)})
Emit == LET rt == RT ct == CT IN
        PrintT(<<"A", <<row.m, row.B, row.T, row.P, row.S, row.R, row.f>>, <<col.m, col.B, col.T, col.P, col.S, col.R, col.f>>,
                 CASE layout = "col" -> 0 [] layout = "block" -> 1 [] OTHER -> 2, pad, Len(rt), Len(ct),
                 [k \in 1..(Len(rt) * Len(ct)) |-> LET i == ((k - 1) % Len(rt)) + 1 j == ((k - 1) \div Len(rt)) + 1 IN
                    <<rt[i][2], ct[j][2], Place(i, j, rt, ct)[1][1], Place(i, j, rt, ct)[1][2], Place(i, j, rt, ct)[2], Place(i, j, rt, ct)[3], Need(i, j, rt, ct)>>]>>)
=============================================================================
