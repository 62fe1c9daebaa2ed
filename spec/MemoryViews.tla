----------------------------- MODULE MemoryViews -----------------------------
(* Views of memory, shared between them, and chunks of memory with one owner.

   A view shows a range of the elements of one piece of memory; copies and subviews show the same elements.  Memory that
   the library allocated lives exactly as long as something shows it, memory of the caller is never released.  Slots
   1..M hold views that may write, M+1..M+C views that may not, M+C+1..M+C+K chunks.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS M, C, K, Sizes, Depth, MaxMem, Offs
VARIABLES mem,    \* pieces of memory: <<size, by the library, contents>>
          slot,   \* <<piece, first element, size>>, size -1: not there
          hist
vars == <<mem, slot, hist>>
Views == 1..(M + C)
Chunks == (M + C + 1)..(M + C + K)
Mutable == 1..M
All == Views \cup Chunks
Gone == <<0, 0, -1>>
Empty == <<0, 0, 0>>
There(s) == slot[s][3] >= 0
Init == mem = <<>> /\ slot = [s \in All |-> Gone] /\ hist = <<>>

\* pieces something shows
Shown(sl) == {sl[s][1] : s \in {x \in All : sl[x][3] > 0}}
Live(m, sl) == {i \in 1..Len(m) : ~m[i][2] \/ i \in Shown(sl)}
Obs(m, sl) == FlattenSeq([s \in All |-> sl[s]]) \o FlattenSeq([i \in 1..Len(m) |-> IF i \in Live(m, sl) THEN <<1>> \o m[i][3] ELSE <<0>>])
Do(m, sl, op) == Len(hist) < Depth /\ mem' = m /\ slot' = sl /\ hist' = Append(hist, op \o <<Len(m)>> \o Obs(m, sl))

\* a new piece; id of the operation marks its contents when the caller gives it
Contents(n, tag) == [i \in 1..n |-> tag * 16 + i]
New(s, n, lib) == /\ ~There(s) /\ Len(mem) < MaxMem
                  /\ lib => s \notin (Views \ Mutable)
                  /\ IF n = 0 THEN Do(mem, [slot EXCEPT ![s] = Empty], <<IF lib THEN 2 ELSE 3, s, 0, 0, 0>>)
                     ELSE Do(Append(mem, <<n, lib, IF lib THEN [i \in 1..n |-> 0] ELSE Contents(n, Len(hist) + 1)>>), [slot EXCEPT ![s] = <<Len(mem) + 1, 0, n>>],
                             <<IF lib THEN 2 ELSE 3, s, 0, n, 0>>)
Default(s) == ~There(s) /\ Do(mem, [slot EXCEPT ![s] = Empty], <<1, s, 0, 0, 0>>)
\* a view that may not write can show what one that may write shows, not the other way round
Into(d, s) == d # s /\ There(s) /\ {d, s} \subseteq Views /\ (s \in Mutable \/ d \notin Mutable)
CopyNew(d, s) == ~There(d) /\ Into(d, s) /\ Do(mem, [slot EXCEPT ![d] = slot[s]], <<4, d, s, 0, 0>>)
MoveNew(d, s) == ~There(d) /\ Into(d, s) /\ Do(mem, [slot EXCEPT ![d] = slot[s], ![s] = Empty], <<5, d, s, 0, 0>>)
Fits(s, a, n) == a + n <= slot[s][3]
Part(s, a, n) == IF n = 0 THEN Empty ELSE <<slot[s][1], slot[s][2] + a, n>>
Sub(d, s, a, n) == ~There(d) /\ Into(d, s) /\ Fits(s, a, n) /\ Do(mem, [slot EXCEPT ![d] = Part(s, a, n)], <<6, d, s, a, n>>)
Assign(d, s) == There(d) /\ Into(d, s) /\ Do(mem, [slot EXCEPT ![d] = slot[s]], <<7, d, s, 0, 0>>)
AssignSelf(d) == There(d) /\ d \in Views /\ Do(mem, slot, <<7, d, d, 0, 0>>)
MoveAssign(d, s) == There(d) /\ Into(d, s) /\ Do(mem, [slot EXCEPT ![d] = slot[s], ![s] = Empty], <<8, d, s, 0, 0>>)
\* a part of a view, assigned to that view
Shrink(d, a, n) == There(d) /\ d \in Views /\ Fits(d, a, n) /\ Do(mem, [slot EXCEPT ![d] = Part(d, a, n)], <<11, d, d, a, n>>)
Destroy(s) == There(s) /\ Do(mem, [slot EXCEPT ![s] = Gone], <<9, s, 0, 0, 0>>)
Write(s) == /\ slot[s][3] > 0 /\ s \in Mutable \cup Chunks
            /\ LET p == slot[s][1]
                   lo == slot[s][2]
               IN  Do([mem EXCEPT ![p][3] = [i \in 1..Len(@) |-> IF i > lo /\ i <= lo + slot[s][3] THEN (Len(hist) + 1) * 16 + i - lo ELSE @[i]]], slot, <<10, s, 0, 0, 0>>)
ChunkMoveNew(d, s) == d # s /\ {d, s} \subseteq Chunks /\ There(s) /\ ~There(d) /\ Do(mem, [slot EXCEPT ![d] = slot[s], ![s] = Empty], <<12, d, s, 0, 0>>)
ChunkMove(d, s) == d # s /\ {d, s} \subseteq Chunks /\ There(s) /\ There(d) /\ Do(mem, [slot EXCEPT ![d] = slot[s], ![s] = Empty], <<13, d, s, 0, 0>>)
Next == \/ \E s \in All : Default(s) \/ Destroy(s) \/ Write(s) \/ AssignSelf(s)
        \/ \E s \in All : \E n \in Sizes : New(s, n, TRUE) \/ New(s, n, FALSE)
        \/ \E d, s \in Views : CopyNew(d, s) \/ MoveNew(d, s) \/ Assign(d, s) \/ MoveAssign(d, s)
        \/ \E d, s \in Views : \E a \in Offs : \E n \in Offs : Sub(d, s, a, n)
        \/ \E d \in Views : \E a \in Offs : \E n \in Offs : Shrink(d, a, n)
        \/ \E d, s \in Chunks : ChunkMoveNew(d, s) \/ ChunkMove(d, s)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* what is shown is inside of a piece, a chunk is the only one that shows its piece
Inside == \A s \in All : slot[s][3] > 0 => slot[s][1] \in 1..Len(mem) /\ slot[s][2] >= 0 /\ slot[s][2] + slot[s][3] <= mem[slot[s][1]][1]
Owner == \A s \in Chunks : slot[s][3] > 0 => \A t \in All \ {s} : slot[t][3] > 0 => slot[t][1] # slot[s][1]
\* what is shown is never released
Safe == Shown(slot) \subseteq Live(mem, slot)
\* released memory never comes back; contents change only by a write to a view that shows them
Stays == [][\A i \in 1..Len(mem) : i \notin Live(mem, slot) => i \notin Live(mem', slot')]_vars
\* what must be refused now: parts that do not fit
Refused == {<<6, s, a, n>> : s \in {x \in Views : There(x)}, a \in Offs, n \in Offs \ {0}} \ {x \in {6} \X Views \X Offs \X Offs : There(x[2]) /\ Fits(x[2], x[3], x[4])}
Emit == Len(hist) = Depth => PrintT(<<"V", M, C, K, FlattenSeq(hist), -7, FlattenSeq(SetToSeq(Refused))>>)
=============================================================================
