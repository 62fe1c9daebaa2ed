---------------------------- MODULE Collectives ----------------------------
(* Blocking collectives as message histories.  Every rank contributes a vector.  A reduction folds the
   contributions one rank after another in an arbitrary order into the result; a broadcast or a
   point-to-point transfer hands one rank's vector over.  Integer data: the order must not matter. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRanks, Count
VARIABLES P, op, folded, acc, start
vars == <<P, op, folded, acc, start>>
Ranks == 0..(P - 1)
Elem == 1..Count
\* different on every rank and element, positive, small
Contribution(r, i) == ((5 * r + 3 * i + r * i) % 7) + 1
Ops == {"sum", "prod", "max", "min"}
Fold(o, x, y) == CASE o = "sum" -> x + y [] o = "prod" -> x * y [] o = "max" -> (IF x > y THEN x ELSE y) [] o = "min" -> (IF x < y THEN x ELSE y)
Init == P \in 1..MaxRanks /\ op \in Ops /\ start \in 0..(P-1) /\ folded = {start} /\ acc = [i \in Elem |-> Contribution(start, i)]
Take(r) == r \in Ranks \ folded /\ folded' = folded \cup {r}
           /\ acc' = [i \in Elem |-> Fold(op, acc[i], Contribution(r, i))] /\ UNCHANGED <<P, op, start>>
Next == \E r \in Ranks : Take(r)
Spec == Init /\ [][Next]_vars
Done == folded = Ranks
\* confluence: the result is a function of the set of contributions
RECURSIVE Direct(_, _, _)
Direct(o, n, i) == IF n = 0 THEN Contribution(0, i) ELSE Fold(o, Direct(o, n - 1, i), Contribution(n, i))
OrderFree == Done => \A i \in Elem : acc[i] = Direct(op, P - 1, i)
Code(o) == CASE o = "sum" -> 0 [] o = "prod" -> 1 [] o = "max" -> 2 [] o = "min" -> 3
Emit == (Done /\ start = 0) => PrintT(<<"O", P, Code(op), [r \in 1..P |-> [i \in Elem |-> Contribution(r - 1, i)]], acc>>)
=============================================================================
