--------------------------- MODULE Distribution ---------------------------
(* A two-dimensional block-cyclic distribution, operationally.  Along each of the two dimensions a
   dealer hands out the elements one at a time.  The first `off` elements are ghosts: they are dealt
   like all others but do not belong to the matrix (that is what an offset means).  Then the n
   elements of the matrix follow.  No formula of the implementation is used.

   A dimension is <<n, ts, tpb, np, src, off>>:
     n elements, ts elements per tile, tpb tiles per block, np ranks, src the rank that is served
     first, off ghosts.  A configuration is a pair <<rows, columns>>.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Pairs,      \* the configurations
          EmitDone    \* TRUE: print the finished tables

VARIABLES pair,   \* the configuration
          d,      \* dimension being dealt (1, 2; 3: finished)
          hand,   \* the dealer: next element e, position in the tile, tile in the block, owner, blocks begun
          start,  \* per dimension: the dealer's hand when the first real element is due
          tiles,  \* per dimension: the tiles of the matrix, in order
          load    \* per dimension, per rank: <<tiles, elements, blocks>> held
vars == <<pair, d, hand, start, tiles, load>>

Fresh(c) == [e |-> 0 - c[6], pos |-> 0, bt |-> 0, owner |-> c[5], blk |-> -1]
NoLoad(c) == [r \in 0..(c[4] - 1) |-> <<0, 0, 0>>]

\* one element in the hand h of dimension c
Advance(c, h) ==
  LET endTile  == h.pos + 1 = c[2]
      endBlock == endTile /\ h.bt + 1 = c[3]
  IN [e     |-> h.e + 1,
      pos   |-> IF endTile THEN 0 ELSE h.pos + 1,
      bt    |-> IF endBlock THEN 0 ELSE IF endTile THEN h.bt + 1 ELSE h.bt,
      owner |-> IF endBlock THEN (IF h.owner + 1 = c[4] THEN 0 ELSE h.owner + 1) ELSE h.owner,
      blk   |-> h.blk]

\* a real element opens a tile when it is the first one or sits at the front of a tile
Opens(h) == h.e = 0 \/ h.pos = 0
OpensBlock(h) == h.e = 0 \/ (h.pos = 0 /\ h.bt = 0)

Init ==
  /\ pair \in Pairs
  /\ d = 1
  /\ hand = Fresh(pair[1])
  /\ start = <<>>
  /\ tiles = <<<<>>, <<>>>>
  /\ load = <<NoLoad(pair[1]), NoLoad(pair[2])>>

Ghost ==
  /\ d <= 2 /\ hand.e < 0
  /\ hand' = Advance(pair[d], hand)
  /\ UNCHANGED <<pair, d, start, tiles, load>>

Ready == /\ d <= 2 /\ hand.e = 0 /\ Len(start) < d
         /\ start' = Append(start, <<hand.owner, hand.bt * pair[d][2] + hand.pos>>)
         /\ UNCHANGED <<pair, d, hand, tiles, load>>

Deal ==
  /\ d <= 2 /\ hand.e >= 0 /\ hand.e < pair[d][1] /\ Len(start) = d
  /\ LET h == hand
         o == h.owner
         ld == load[d][o]
         nb == OpensBlock(h)
         nt == Opens(h)
         b == IF nb THEN h.blk + 1 ELSE h.blk
         ld1 == <<IF nt THEN ld[1] + 1 ELSE ld[1], ld[2] + 1, IF nb THEN ld[3] + 1 ELSE ld[3]>>
         k == Len(tiles[d])
     IN /\ load' = [load EXCEPT ![d][o] = ld1]
        \* a tile: owner, first element, size, local tile, local element, block, local block
        /\ tiles' = IF nt
                    THEN [tiles EXCEPT ![d] = Append(@, <<o, h.e, 1, ld[1], ld[2], b, ld1[3] - 1>>)]
                    ELSE [tiles EXCEPT ![d][k][3] = @ + 1]
        /\ hand' = [Advance(pair[d], h) EXCEPT !.blk = b]
  /\ UNCHANGED <<pair, d, start>>

Turn ==
  /\ d <= 2 /\ hand.e >= pair[d][1] /\ Len(start) = d
  /\ d' = d + 1
  /\ hand' = IF d = 1 THEN Fresh(pair[2]) ELSE hand
  /\ UNCHANGED <<pair, start, tiles, load>>

Next == Ghost \/ Ready \/ Deal \/ Turn
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE SumTo(_, _, _)
SumTo(f, r, k) == IF r < 0 THEN 0 ELSE f[r][k] + SumTo(f, r - 1, k)

Dealt(k) == IF k < d THEN pair[k][1] ELSE IF k = d /\ hand.e > 0 THEN hand.e ELSE 0
\* the tiles cut 0..n-1 into consecutive pieces: every element is in exactly one tile (and so on one rank)
Partition ==
  \A k \in 1..2 :
    LET t == tiles[k] IN
      /\ \A i \in 1..Len(t) : t[i][3] >= 1 /\ t[i][3] <= pair[k][2]
      /\ \A i \in 1..Len(t) : t[i][2] = (IF i = 1 THEN 0 ELSE t[i-1][2] + t[i-1][3])
      /\ Dealt(k) = (IF t = <<>> THEN 0 ELSE t[Len(t)][2] + t[Len(t)][3])
\* what the ranks hold adds up to the whole
Whole ==
  \A k \in 1..2 :
    /\ SumTo(load[k], pair[k][4] - 1, 1) = Len(tiles[k])
    /\ SumTo(load[k], pair[k][4] - 1, 2) = Dealt(k)
\* on each rank tiles and elements are numbered without gaps, in global order
LocalOrder ==
  \A k \in 1..2 : \A r \in 0..(pair[k][4] - 1) :
    LET mine == SelectSeq(tiles[k], LAMBDA t : t[1] = r) IN
      /\ Len(mine) = load[k][r][1]
      /\ \A i \in 1..Len(mine) :
           /\ mine[i][4] = i - 1
           /\ mine[i][5] = (IF i = 1 THEN 0 ELSE mine[i-1][5] + mine[i-1][3])
      /\ load[k][r][2] = (IF mine = <<>> THEN 0 ELSE mine[Len(mine)][5] + mine[Len(mine)][3])
\* all full tiles but the first have the full size; all tiles of a block are on one rank
Shape ==
  \A k \in 1..2 :
    LET t == tiles[k] IN
      /\ \A i \in 2..(Len(t) - 1) : t[i][3] = pair[k][2]
      /\ \A i, j \in 1..Len(t) : t[i][6] = t[j][6] => t[i][1] = t[j][1]

Flat(c, k) ==
  <<c[1], c[2], c[3], c[4], c[5], c[6], start[k][1], start[k][2], Len(tiles[k])>>
    \o FlattenSeq(tiles[k])
    \o FlattenSeq([r \in 1..c[4] |-> load[k][r - 1]])
Emit == (EmitDone /\ d = 3) => PrintT(<<"D">> \o Flat(pair[1], 1) \o Flat(pair[2], 2))
============================================================================
