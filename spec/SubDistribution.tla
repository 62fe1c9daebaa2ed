------------------------- MODULE SubDistribution -------------------------
(* A region of a distributed matrix.  The region keeps every element where the parent has it; the
   tiles of the region are the parent's tiles clipped to it.  `Regions` gives for each configuration
   of the parent a region per dimension, <<origin, length>>.  The clipped tables are the oracle for the
   implementation; the theorem checked here is that they are again a block-cyclic distribution: the
   one in which everything before the region is a ghost.                                          *)
EXTENDS Distribution
CONSTANT Regions(_)  \* pair -> set of <<row region, column region>>

Clip(k, o, n) ==
  LET cut == [i \in 1..Len(tiles[k]) |->
                LET t == tiles[k][i]
                    lo == IF t[2] > o THEN t[2] ELSE o
                    hi == IF t[2] + t[3] < o + n THEN t[2] + t[3] ELSE o + n
                IN <<t[1], lo - o, hi - lo, i - 1, lo - t[2], t[6]>>]
  IN SelectSeq(cut, LAMBDA t : t[3] > 0)

RECURSIVE Number(_, _)
\* local numbering: owner, first, size, local tile, local element, parent tile, offset in the parent tile
Number(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET before == SelectSeq(SubSeq(s, 1, i - 1), LAMBDA t : t[1] = s[i][1])
       IN <<<<s[i][1], s[i][2], s[i][3], Len(before),
              FoldLeft(LAMBDA a, t : a + t[3], 0, before), s[i][4], s[i][5]>>>> \o Number(s, i + 1)

RECURSIVE DealAll(_, _, _)
\* the deal of a whole dimension as a function (same steps as the actions above)
DealAll(c, h, t) ==
  IF h.e >= c[1] THEN t
  ELSE DealAll(c, Advance(c, h),
         IF h.e < 0 THEN t
         ELSE IF Opens(h) THEN Append(t, <<h.owner, h.e, 1>>)
         ELSE [t EXCEPT ![Len(t)][3] = @ + 1])
RECURSIVE HandAt(_, _)
HandAt(c, h) == IF h.e >= 0 THEN h ELSE HandAt(c, Advance(c, h))

SubCfg(c, o, n) == <<n, c[2], c[3], c[4], c[5], c[6] + o>>

\* clipping the parent equals dealing with the elements before the region as ghosts
ClipIsDeal ==
  d = 3 =>
    \A rg \in Regions(pair) : \A k \in 1..2 :
      LET sc == SubCfg(pair[k], rg[k][1], rg[k][2])
          a == Clip(k, rg[k][1], rg[k][2])
          b == DealAll(sc, Fresh(sc), <<>>)
      IN /\ Len(a) = Len(b)
         /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ a[i][2] = b[i][2] /\ a[i][3] = b[i][3]

FlatSub(k, o, n) ==
  LET sc == SubCfg(pair[k], o, n)
      h == HandAt(sc, Fresh(sc))
      s == Number(Clip(k, o, n), 1)
      c == pair[k]
      mine(r) == SelectSeq(s, LAMBDA t : t[1] = r)
  IN <<c[1], c[2], c[3], c[4], c[5], c[6], o, n, h.owner, h.bt * c[2] + h.pos, Len(s)>>
       \o FlattenSeq(s)
       \o FlattenSeq([r \in 1..c[4] |-> <<Len(mine(r - 1)), FoldLeft(LAMBDA a, t : a + t[3], 0, mine(r - 1))>>])
EmitSub ==
  (EmitDone /\ d = 3) =>
    \A rg \in Regions(pair) : PrintT(<<"S">> \o FlatSub(1, rg[1][1], rg[1][2]) \o FlatSub(2, rg[2][1], rg[2][2]))
============================================================================
