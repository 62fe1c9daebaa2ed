---------------------------- MODULE Pipelines ----------------------------
(* A resource behind a pipeline, and pipelines nested in it.

   A pipeline is a queue of turns.  A turn is either a set of readers or one writer; only the members of
   the first turn may use the resource, and only while the pipeline has the resource.  The root
   pipeline has the resource from the start.  Opening a sub-pipeline takes a writer's turn in the
   parent; the sub-pipeline has the resource while that turn is on, and gives the turn back when it is
   closed and its own queue is empty.

   An access is first requested (it takes its place in the queue), then started (it asks to be told), then
   granted, then released; a request may also be given up without being started.  The resource
   remembers the last access that wrote to it.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Depth, MaxPipes, MaxAcc, Lazy, EmitDepth
VARIABLES s,    \* [acc, pipe, val]
          hist
vars == <<s, hist>>

\* an access: its pipeline, kind ("R", "W", "S": the turn a sub-pipeline holds), how far it is, what it saw
Access(p, k, st) == [pipe |-> p, kind |-> k, st |-> st, seen |-> -1]
Root == [parent |-> 0, entry |-> 0, open |-> TRUE, q |-> <<>>, last |-> "W"]
Init == s = [acc |-> <<>>, pipe |-> <<Root>>, val |-> 0] /\ hist = <<>>

RECURSIVE Has(_, _)
\* pipeline p has the resource
Has(t, p) ==
  \/ t.pipe[p].parent = 0
  \/ LET e == t.pipe[p].entry
     IN t.acc[e].st = "held" /\ Has(t, t.pipe[p].parent)

Gone(t, m) == \A a \in m : t.acc[a].st = "gone"
\* one step of bookkeeping, or the same state when there is nothing to do
Tidy(t) ==
  LET P == 1..Len(t.pipe)
      done == {p \in P : t.pipe[p].q # <<>> /\ Gone(t, Head(t.pipe[p].q)) /\ Has(t, p)}
      closed == {p \in P : /\ t.pipe[p].parent # 0 /\ ~t.pipe[p].open /\ t.pipe[p].q = <<>> /\ Has(t, p)
                           /\ t.acc[t.pipe[p].entry].st = "held"}
      due == {a \in 1..Len(t.acc) :
                /\ t.acc[a].st = "started"
                /\ Has(t, t.acc[a].pipe)
                /\ t.pipe[t.acc[a].pipe].q # <<>> /\ a \in Head(t.pipe[t.acc[a].pipe].q)}
  IN IF done # {} THEN LET p == Min(done) IN [t EXCEPT !.pipe[p].q = Tail(@)]
     ELSE IF closed # {} THEN LET p == Min(closed) IN [t EXCEPT !.acc[t.pipe[p].entry].st = "gone"]
     ELSE IF due # {} THEN
       LET a == Min(due) IN
         [t EXCEPT !.acc[a] = [@ EXCEPT !.st = "held", !.seen = t.val],
                   !.val = IF t.acc[a].kind = "W" THEN a ELSE t.val]
     ELSE t
RECURSIVE Settle(_)
Settle(t) == LET u == Tidy(t) IN IF u = t THEN t ELSE Settle(u)

Enqueue(t, p, k, st) ==
  LET a == Len(t.acc) + 1
      q == t.pipe[p].q
      join == k = "R" /\ t.pipe[p].last = "R" /\ q # <<>>
  IN [t EXCEPT !.acc = Append(@, Access(p, k, st)),
               !.pipe[p].q = IF join THEN [q EXCEPT ![Len(q)] = @ \cup {a}] ELSE Append(q, {a}),
               !.pipe[p].last = IF k = "R" THEN "R" ELSE "W"]

\* the accesses somebody holds, as a bit mask
Mask(t) == FoldSet(LAMBDA a, x : x + 2^(a - 1), 0, {a \in 1..Len(t.acc) : t.acc[a].st = "held" /\ t.acc[a].kind # "S"})
Do(t, op) == /\ Len(hist) < Depth
             /\ s' = Settle(t)
             /\ hist' = Append(hist, op \o <<Mask(s')>>)

Open == {p \in 1..Len(s.pipe) : s.pipe[p].open}
N == Len(s.acc) + 1
Request(p, k, st) == /\ p \in Open /\ N <= MaxAcc
                     /\ Do(Enqueue(s, p, k, st), <<IF st = "started" THEN (IF k = "R" THEN 1 ELSE 2) ELSE (IF k = "R" THEN 3 ELSE 4), p, N>>)
Start(a) == s.acc[a].st = "wait" /\ Do([s EXCEPT !.acc[a].st = "started"], <<5, a, 0>>)
GiveUp(a) == s.acc[a].st = "wait" /\ Do([s EXCEPT !.acc[a].st = "gone"], <<6, a, 0>>)
Release(a) == s.acc[a].st = "held" /\ s.acc[a].kind # "S" /\ Do([s EXCEPT !.acc[a].st = "gone"], <<7, a, 0>>)
Nest(p) == /\ p \in Open /\ Len(s.pipe) < MaxPipes /\ N <= MaxAcc
           /\ LET t == Enqueue(s, p, "S", "started")
              IN Do([t EXCEPT !.pipe = Append(@, [Root EXCEPT !.parent = p, !.entry = N])], <<8, p, Len(s.pipe) + 1>>)
\* how: 0 destroyed, 1 reset, 2 overwritten by an empty pipeline, 3 overwritten by a new root pipeline (unused)
Close(p, how) == p \in Open /\ Do([s EXCEPT !.pipe[p].open = FALSE], <<9, p, how>>)
\* the object that stands for a pipeline is moved: nothing changes
Move(p, how) == p \in Open /\ Do(s, <<10, p, how>>)
\* pipeline q is moved over pipeline p: p is closed
Overwrite(p, q) == p \in Open /\ q \in Open /\ p # q /\ Do([s EXCEPT !.pipe[p].open = FALSE], <<11, p, q>>)

Next == \/ \E p \in Open : \/ \E k \in {"R", "W"} : Request(p, k, "started") \/ (Lazy /\ Request(p, k, "wait"))
                           \/ Nest(p)
                           \/ \E how \in 0..3 : Close(p, how)
                           \/ \E how \in 0..1 : Lazy /\ Move(p, how)
                           \/ \E q \in Open : Overwrite(p, q)
        \/ \E a \in 1..Len(s.acc) : Start(a) \/ GiveUp(a) \/ Release(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Held == {a \in 1..Len(s.acc) : s.acc[a].st = "held"}
\* the accesses in the order in which they have to take place
RECURSIVE Before(_, _)
RECURSIVE Chain(_)
\* the places an access occupies, from the root down: <<number in the root pipeline, number in the nested one, ...>>
Chain(a) == LET p == s.acc[a].pipe IN IF s.pipe[p].parent = 0 THEN <<a>> ELSE Append(Chain(s.pipe[p].entry), a)
Before(x, y) ==
  IF x = <<>> \/ y = <<>> THEN FALSE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Before(Tail(x), Tail(y))
Earlier(a, b) == Before(Chain(a), Chain(b))

\* a writer is alone
WritersAlone == \A a, b \in Held : (a # b /\ s.acc[a].kind = "W" /\ s.acc[b].kind # "S") => FALSE
\* everything before a granted access in the order is over, except readers sharing its turn
InOrder ==
  \A a \in Held : s.acc[a].kind # "S" =>
    \A b \in 1..Len(s.acc) :
      (s.acc[b].kind # "S" /\ Earlier(b, a) /\ s.acc[b].st # "gone") => (s.acc[a].kind = "R" /\ s.acc[b].kind = "R" /\ s.acc[a].pipe = s.acc[b].pipe)
\* an access sees the last writer before it in the order (dropped requests never wrote)
SeesLast ==
  \A a \in 1..Len(s.acc) : s.acc[a].seen >= 0 /\ s.acc[a].kind # "S" =>
    LET W == {b \in 1..Len(s.acc) : s.acc[b].kind = "W" /\ s.acc[b].seen >= 0 /\ Earlier(b, a)}
    IN IF W = {} THEN s.acc[a].seen = 0
       ELSE \E b \in W : s.acc[a].seen = b /\ \A w \in W : w = b \/ Earlier(w, b)
----------------------------------------------------------------------------
RECURSIVE Drain(_)
\* everybody leaves
Drain(t) ==
  LET h == {a \in 1..Len(t.acc) : t.acc[a].st = "held" /\ t.acc[a].kind # "S"}
  IN IF h = {} THEN t ELSE Drain(Settle([t EXCEPT !.acc = [a \in 1..Len(t.acc) |-> IF a \in h THEN [t.acc[a] EXCEPT !.st = "gone"] ELSE t.acc[a]]]))
Final == Drain(Settle([s EXCEPT !.pipe = [p \in 1..Len(s.pipe) |-> [s.pipe[p] EXCEPT !.open = FALSE]],
                                !.acc = [a \in 1..Len(s.acc) |-> IF s.acc[a].st = "wait" THEN [s.acc[a] EXCEPT !.st = "gone"] ELSE s.acc[a]]]))
\* when everything was closed and released, every started access had its turn
AllServed == \A a \in 1..Len(Final.acc) : Final.acc[a].st = "gone" /\ (s.acc[a].st = "started" => Final.acc[a].seen >= 0)
Emit == (Len(hist) = EmitDepth) =>
          PrintT(<<"H", hist, [a \in 1..Len(s.acc) |-> <<s.acc[a].pipe, Final.acc[a].seen>>]>>)
=============================================================================
