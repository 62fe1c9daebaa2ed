---------------------------- MODULE BlockCyclic ----------------------------
(* One dimension of a block-cyclic distribution, specified operationally: a dealer hands out the
   elements of a vector one at a time.  No closed formula of the implementation is used here; the
   invariants below are what the user relies on, and every state is replayed into the real index
   functions (checks/p05.py, harness/p05_blockcyclic.cpp).

   A configuration is <<ts, tpb, gs, src, toff, eoff>>:
     ts   elements per tile          tpb  tiles per block       gs  number of ranks
     src  rank owning the first tile toff tiles missing from the first block
     eoff elements missing from the first tile                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Track,        \* TRUE: keep the history `where` (small runs only)
          Configs,      \* set of configurations
          MaxElement(_) \* number of elements dealt for a configuration

VARIABLES cfg,
          e,      \* global index of the next element
          tile,   \* global index of the tile under the dealer's hand
          telem,  \* index of the next element within that tile
          room,   \* elements that still fit in the current tile
          owner,  \* rank receiving the current tile
          left,   \* tiles of the current block still to deal, the current one included
          cnt,    \* cnt[r]: tiles completely dealt to rank r
          lelem,  \* lelem[r]: elements dealt to rank r
          where   \* where[r]: sequence of global tiles rank r received so far (current one included)

vars == <<cfg, e, tile, telem, room, owner, left, cnt, lelem, where>>

ts == cfg[1]  tpb == cfg[2]  gs == cfg[3]  src == cfg[4]  toff == cfg[5]  eoff == cfg[6]
Ranks == 0..(gs - 1)

Init ==
  /\ cfg \in Configs
  /\ e = 0 /\ tile = 0 /\ telem = 0
  /\ room = ts - eoff
  /\ owner = src
  /\ left = tpb - toff
  /\ cnt = [r \in Ranks |-> 0]
  /\ lelem = [r \in Ranks |-> 0]
  /\ where = [r \in Ranks |-> IF Track /\ r = src THEN <<0>> ELSE <<>>]

\* the element stays in the tile under the hand
DealInside ==
  /\ e < MaxElement(cfg)
  /\ room > 1
  /\ e' = e + 1 /\ telem' = telem + 1 /\ room' = room - 1
  /\ lelem' = [lelem EXCEPT ![owner] = @ + 1]
  /\ UNCHANGED <<cfg, tile, owner, left, cnt, where>>

\* the element completes the tile; the next tile goes to the same block
DealTile ==
  /\ e < MaxElement(cfg)
  /\ room = 1 /\ left > 1
  /\ e' = e + 1 /\ tile' = tile + 1 /\ telem' = 0 /\ room' = ts /\ left' = left - 1
  /\ cnt' = [cnt EXCEPT ![owner] = @ + 1]
  /\ lelem' = [lelem EXCEPT ![owner] = @ + 1]
  /\ where' = IF Track THEN [where EXCEPT ![owner] = Append(@, tile + 1)] ELSE where
  /\ UNCHANGED <<cfg, owner>>

\* the element completes the block; the next rank is served
DealBlock ==
  /\ e < MaxElement(cfg)
  /\ room = 1 /\ left = 1
  /\ e' = e + 1 /\ tile' = tile + 1 /\ telem' = 0 /\ room' = ts /\ left' = tpb
  /\ cnt' = [cnt EXCEPT ![owner] = @ + 1]
  /\ lelem' = [lelem EXCEPT ![owner] = @ + 1]
  /\ owner' = IF owner + 1 = gs THEN 0 ELSE owner + 1
  /\ where' = IF Track THEN [where EXCEPT ![owner'] = Append(@, tile + 1)] ELSE where
  /\ UNCHANGED cfg

Next == DealInside \/ DealTile \/ DealBlock
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

\* every element and every tile has exactly one owner
Partition ==
  /\ SumOver(cnt, Ranks) = tile
  /\ SumOver(lelem, Ranks) = e
  /\ \A t \in 0..tile : Cardinality({r \in Ranks : \E i \in 1..Len(where[r]) : where[r][i] = t}) = 1
\* each rank's tiles are numbered without gaps, in increasing global order
LocalOrder ==
  \A r \in Ranks : /\ Len(where[r]) = cnt[r] + (IF r = owner THEN 1 ELSE 0)
                   /\ \A i, j \in 1..Len(where[r]) : i < j => where[r][i] < where[r][j]
\* the load of two ranks never differs by more than one block
Balanced == \A r, s \in Ranks : cnt[r] - cnt[s] <= tpb
InTile == telem >= 0 /\ telem < ts /\ room >= 1 /\ room <= ts /\ left >= 1 /\ left <= tpb

\* one line per state: the complete projection of the state the implementation must agree with
Emit ==
  /\ PrintT(<<"E", ts, eoff, e, tile, telem>>)
  /\ (telem # 0 \/ PrintT(<<"T", tpb, gs, src, toff, tile, owner>> \o [i \in 1..gs |-> cnt[i-1]]))
============================================================================
