---------------------------- MODULE CommHandles ----------------------------
(* Shared ownership of communicators.  Communicators are numbered; the first Users of them belong to the
   user.  A handle slot holds a reference to a communicator (0: the null communicator), nothing, or
   the remains of a moved handle.  A managed communicator dies with its last handle. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Users, Depth, MaxComm
VARIABLES slot, managed, freed, next, hist
vars == <<slot, managed, freed, next, hist>>
S == 1..Slots
None == -1
Husk == -2
Refs(f, m) == {s \in S : f[s] = m}
Init == slot = [s \in S |-> None] /\ managed = {} /\ freed = {} /\ next = Users + 1 /\ hist = <<>>
Fresh(s) == slot[s] = None /\ \A r \in S : r < s => slot[r] # None
\* every step: new slots, and whichever managed communicators lost their last handle are released
Do(f, m, op) == /\ Len(hist) < Depth /\ slot' = f /\ managed' = m
                /\ freed' = freed \cup {k \in m : Refs(f, k) = {}}
                /\ hist' = Append(hist, op \o <<Cardinality(freed')>>)
\* op = <<code, slot, argument>>
MakeNull(s) == Fresh(s) /\ Do([slot EXCEPT ![s] = 0], managed, <<1, s, 0>>) /\ UNCHANGED next
Wrap(s, u) == Fresh(s) /\ u \in 1..Users /\ Do([slot EXCEPT ![s] = u], managed, <<2, s, u>>) /\ UNCHANGED next
Manage(s) == Fresh(s) /\ next <= MaxComm /\ Do([slot EXCEPT ![s] = next], managed \cup {next}, <<3, s, next>>) /\ next' = next + 1
Copy(s, t) == slot[s] >= 0 /\ Fresh(t) /\ Do([slot EXCEPT ![t] = slot[s]], managed, <<4, s, t>>) /\ UNCHANGED next
Assign(s, t) == slot[s] >= 0 /\ slot[t] # None /\ Do([slot EXCEPT ![t] = slot[s]], managed, <<5, s, t>>) /\ UNCHANGED next
MoveC(s, t) == slot[s] >= 0 /\ Fresh(t) /\ Do([slot EXCEPT ![t] = slot[s], ![s] = Husk], managed, <<6, s, t>>) /\ UNCHANGED next
MoveA(s, t) == slot[s] >= 0 /\ slot[t] # None /\ s # t /\ Do([slot EXCEPT ![t] = slot[s], ![s] = Husk], managed, <<7, s, t>>) /\ UNCHANGED next
Clone(s, t) == /\ slot[s] > 0 /\ Fresh(t) /\ next <= MaxComm
               /\ Do([slot EXCEPT ![t] = next], managed \cup {next}, <<8, s, t>>) /\ next' = next + 1
CloneOver(s, t) == /\ slot[s] > 0 /\ slot[t] # None /\ next <= MaxComm
               /\ Do([slot EXCEPT ![t] = next], managed \cup {next}, <<9, s, t>>) /\ next' = next + 1
Destroy(s) == slot[s] # None /\ Do([slot EXCEPT ![s] = None], managed, <<10, s, 0>>) /\ UNCHANGED next
Next == \E s \in S : \/ MakeNull(s) \/ Manage(s) \/ Destroy(s)
                     \/ \E u \in 1..Users : Wrap(s, u)
                     \/ \E t \in S : Copy(s, t) \/ Assign(s, t) \/ MoveC(s, t) \/ MoveA(s, t) \/ Clone(s, t) \/ CloneOver(s, t)
Spec == Init /\ [][Next]_vars
UserKept == freed \cap (1..Users) = {}
NoUseAfterFree == \A s \in S : slot[s] \notin freed
OnlyManaged == freed \subseteq managed
LastOut == \A k \in managed : (k \in freed) <=> (Refs(slot, k) = {})
FreedForGood == [][freed \subseteq freed']_vars
Emit == Len(hist) = Depth => PrintT(<<"H", hist>>)
=============================================================================
