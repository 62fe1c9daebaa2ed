---------------------------- MODULE ThreadScope ----------------------------
(* Thread counts of two threads, each with a stack of scopes.  Opening a scope remembers the count in
   force and sets it to one; closing restores it.  The program may change the count at any time. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Threads, Counts, Depth
VARIABLES count, stack, hist
vars == <<count, stack, hist>>
Th == 1..Threads
Init == count \in [Th -> Counts] /\ stack = [t \in Th |-> <<>>] /\ hist = <<count>>
Rec(op) == Len(hist) <= Depth /\ hist' = Append(hist, op)
Open(t) == count' = [count EXCEPT ![t] = 1] /\ stack' = [stack EXCEPT ![t] = Append(@, count[t])] /\ Rec(<<1, t, 1>>)
Close(t) == /\ stack[t] # <<>> /\ count' = [count EXCEPT ![t] = stack[t][Len(stack[t])]]
            /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ Rec(<<2, t, stack[t][Len(stack[t])]>>)
Set(t, n) == count' = [count EXCEPT ![t] = n] /\ Rec(<<3, t, n>>) /\ UNCHANGED stack
Next == \E t \in Th : Open(t) \/ Close(t) \/ \E n \in Counts : Set(t, n)
Spec == Init /\ [][Next]_vars
\* with no change in between, everything inside a scope runs with one thread
Inside == \A t \in Th : (stack[t] # <<>> /\ hist[Len(hist)] = <<1, t, 1>>) => count[t] = 1
Balanced == \A t \in Th : \A k \in 1..Len(stack[t]) : stack[t][k] \in Counts \cup {1}
Emit == Len(hist) = Depth + 1 => PrintT(<<"B", hist>>)
=============================================================================
