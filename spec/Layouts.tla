------------------------------ MODULE Layouts ------------------------------
(* Buffer descriptions.  A layout <<n, s, t>> is n blocks of s elements whose starts lie t apart.  A pen
   walks over the described elements one by one; a copy walks two pens in lockstep over a memory in
   which every source cell holds its own number, every other cell a sentinel. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN, MaxS, Gap,    \* blocks, block size, stride - block size
          MaxCount            \* pairs of layouts are formed up to this element count
VARIABLES src, dst, k,        \* k elements transferred so far
          pa, pb,             \* pens: <<block, element in block, memory position>>
          from, to, mode      \* visited positions
vars == <<src, dst, k, pa, pb, from, to, mode>>

Layouts == {<<1, s, 0>> : s \in 0..(MaxN * MaxS)}
           \cup {<<n, s, s + g>> : n \in 2..MaxN, s \in 0..MaxS, g \in 0..Gap}
Count(L) == L[1] * L[2]
Span(L) == IF Count(L) = 0 THEN 0 ELSE (L[1] - 1) * L[3] + L[2]
Start == <<0, 0, 0>>
Advance(L, p) == IF p[2] + 1 < L[2] THEN <<p[1], p[2] + 1, p[3] + 1>>
                 ELSE <<p[1] + 1, 0, p[3] + L[3] - (L[2] - 1)>>

Init == /\ src \in Layouts /\ dst \in {<<1, Count(src), 0>>}
        /\ k = 0 /\ pa = Start /\ pb = Start /\ from = <<>> /\ to = <<>> /\ mode = "single"
\* choose another destination
Pair == /\ mode = "single" /\ k = 0 /\ Count(src) <= MaxCount /\ dst' \in Layouts /\ Count(dst') <= MaxCount
        /\ mode' = IF Count(dst') = Count(src) THEN "pair" ELSE "unequal"
        /\ UNCHANGED <<src, k, pa, pb, from, to>>
Transfer == /\ k < Count(src) /\ mode # "unequal"
            /\ from' = Append(from, pa[3]) /\ to' = Append(to, pb[3]) /\ k' = k + 1
            /\ pa' = Advance(src, pa) /\ pb' = Advance(dst, pb) /\ UNCHANGED <<src, dst, mode>>
Next == Pair \/ Transfer
Spec == Init /\ [][Next]_vars

Done == k = Count(src) /\ mode # "unequal"
InSpan == \A i \in 1..k : from[i] \in 0..(Span(src) - 1) /\ to[i] \in 0..(Span(dst) - 1)
Injective == \A i, j \in 1..k : i # j => from[i] # from[j] /\ to[i] # to[j]
Closed == \A i \in 1..k : from[i] = ((i - 1) \div src[2]) * src[3] + ((i - 1) % src[2])
Contiguous(L) == \A i \in 1..k : from[i] = i - 1
\* scaling law: positions of the layout with stride t*K keep block number and offset
ScaleLaw == \A i \in 1..k : LET K == 1000 IN
              ((i - 1) \div src[2]) * (K * src[3]) + ((i - 1) % src[2]) = from[i] + ((i - 1) \div src[2]) * (K - 1) * src[3]
Emit == /\ (mode = "single" /\ Done) => PrintT(<<"Y", src, Count(src), IF Contiguous(src) THEN 1 ELSE 0, from>>)
        /\ (mode = "pair" /\ Done) => PrintT(<<"C", src, dst, Count(src), from, to>>)
        /\ mode = "unequal" => PrintT(<<"X", src, dst>>)
=============================================================================
