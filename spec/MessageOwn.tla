----------------------------- MODULE MessageOwn -----------------------------
(* Ownership of the derived datatypes of messages.  A slot holds nothing, a message, or the remains of a
   message that was moved away.  A message over a strided layout owns one datatype. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Kinds,   \* kinds 0: contiguous, 1..: strided layouts
          Depth
VARIABLES slot,    \* slot -> <<"none">> | <<"live", kind, id>> | <<"husk">>
          next, hist, owned   \* ids of datatypes that live messages own
vars == <<slot, next, hist, owned>>
S == 1..Slots
None == <<"none", 0, 0>>
Husk == <<"husk", 0, 0>>
Ids(f) == {f[s][3] : s \in {x \in S : f[x][1] = "live" /\ f[x][2] > 0}}
Init == slot = [s \in S |-> None] /\ next = 1 /\ hist = <<>> /\ owned = {}
Do(f, op) == slot' = f /\ owned' = Ids(f) /\ hist' = Append(hist, op) /\ Len(hist) < Depth
\* symmetric slots: a new slot is used only after all smaller ones were
Fresh(s) == slot[s] = None /\ \A r \in S : r < s => slot[r] # None
Make(s, k) == Fresh(s) /\ Do([slot EXCEPT ![s] = <<"live", k, next>>], <<1, s, k>>) /\ next' = next + 1
MoveConstruct(s, t) == slot[s][1] = "live" /\ Fresh(t)
                       /\ Do([slot EXCEPT ![s] = Husk, ![t] = slot[s]], <<2, s, t>>) /\ UNCHANGED next
MoveAssign(s, t) == slot[s][1] = "live" /\ slot[t] # None /\ s # t
                    /\ Do([slot EXCEPT ![s] = Husk, ![t] = slot[s]], <<3, s, t>>) /\ UNCHANGED next
SelfAssign(s) == slot[s][1] = "live" /\ Do([slot EXCEPT ![s] = Husk], <<3, s, s>>) /\ UNCHANGED next
Destroy(s) == slot[s] # None /\ Do([slot EXCEPT ![s] = None], <<4, s, 0>>) /\ UNCHANGED next
Replace(s, k) == slot[s] # None /\ Do([slot EXCEPT ![s] = <<"live", k, next>>], <<5, s, k>>) /\ next' = next + 1
Next == \E s \in S : \/ Destroy(s) \/ SelfAssign(s)
                     \/ \E k \in Kinds : Make(s, k) \/ Replace(s, k)
                     \/ \E t \in S \ {s} : MoveConstruct(s, t) \/ MoveAssign(s, t)
Spec == Init /\ [][Next]_vars
\* never two owners; nothing owned that was not created
OneOwner == \A s, t \in S : (s # t /\ slot[s][1] = "live" /\ slot[t][1] = "live") => slot[s][3] # slot[t][3]
OwnedCreated == \A i \in owned : i < next
NoneLeft == (\A s \in S : slot[s] = None) => owned = {}
Emit == Len(hist) = Depth => PrintT(<<"M", hist>>)
=============================================================================
