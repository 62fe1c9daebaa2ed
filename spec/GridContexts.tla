--------------------------- MODULE GridContexts ---------------------------
(* Process grids known to the C interface by an integer.  The caller of the interface keeps tickets: ticket k
   stands for the k-th grid created.  What the interface owes the caller: the integers of the grids that
   exist are different, and a ticket's integer leads to that ticket's grid for as long as it exists. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, Kinds, MaxLive, Blacs
VARIABLES live,    \* tickets whose grids exist: set of <<ticket, kind, blacs context or -1>>
          issued, hist
vars == <<live, issued, hist>>
Init == live = {} /\ issued = 0 /\ hist = <<>>
Tickets == {t[1] : t \in live}
Do(l, op) == Len(hist) < Depth /\ live' = l /\ hist' = Append(hist, op)
\* op = <<code, ticket, argument>>
Create(k) == /\ Cardinality(live) < MaxLive
             /\ Do(live \cup {<<issued + 1, k, -1>>}, <<1, issued + 1, k>>) /\ issued' = issued + 1
Free(t) == t \in Tickets /\ Do({x \in live : x[1] # t}, <<2, t, 0>>) /\ UNCHANGED issued
FreeAll == live # {} /\ Do({}, <<3, 0, 0>>) /\ UNCHANGED issued
\* an integer no grid has
FreeStranger == Do(live, <<4, 0, 0>>) /\ UNCHANGED issued
\* BLACS numbers its own contexts; a grid made for a context is known by that number
FromBlacs(b) == /\ Cardinality(live) < MaxLive /\ ~\E x \in live : x[3] = b
                /\ Do(live \cup {<<issued + 1, b, b>>}, <<5, issued + 1, b>>) /\ issued' = issued + 1
Again(b) == /\ \E x \in live : x[3] = b
            /\ Do(live, <<6, 0, b>>) /\ UNCHANGED issued
Next == \/ \E k \in Kinds : Create(k)
        \/ \E t \in Tickets : Free(t)
        \/ FreeAll \/ FreeStranger
        \/ \E b \in Blacs : FromBlacs(b) \/ Again(b)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
OneGridPerTicket == \A x, y \in live : x[1] = y[1] => x = y
OnlyIssued == \A x \in live : x[1] <= issued
\* a grid disappears only when it is freed
Stays == [][\A x \in live : x \in live' \/ hist'[Len(hist')][1] \in {2, 3}]_vars
Emit == Len(hist) = Depth => PrintT(<<"C", hist>>)
=============================================================================
