------------------------------ MODULE AsyncCalls ------------------------------
(* Functions called asynchronously by the helpers every routine of the library is made of.   *)
(*                                                                                           *)
(* State: the calls submitted so far, the events they wait for, one pipeline of a value, and *)
(* for each call whether it waits, runs, or is over with a value or an error.  The           *)
(* environment submits calls and fires events (with a value or an error) in any order.       *)
(* A program is a function of its seed.  With Free the environment goes on at any time, and  *)
(* otherwise only when nothing can move, so that what is observable then is unique.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Seeds, NMax, Free

ASSUME NMax \in 2..6  \* so that the numbers of the events differ

VARIABLES h, sub, ev, st, val, er, pv, clock, told, calls, trace
vars == <<h, sub, ev, st, val, er, pv, clock, told, calls, trace>>

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Hash(k) == Mix(h, k)

----------------------------------------------------------------------------
(* the program *)
N == 2 + (Hash(1) % (NMax - 1))
Strict == Hash(2) % 2 = 0              \* nothing fails, and calls without a result are allowed
Ops == 1..N
\* forms: 0-4 with a result, 5-7 detached, 8 blocking
Form(k) == LET f == Hash(10 + k) IN IF Strict /\ f % 3 = 0 THEN 5 + ((f \div 3) % 4) ELSE (f \div 3) % 5
Detached(k) == Form(k) >= 5
Nin(k) == IF Form(k) = 8 THEN 2 ELSE LET x == Hash(20 + k) % 9 IN IF x = 0 THEN 0 ELSE 1 + (x % 2)
\* kinds: 1 a value given up, 2 a value lent (copied), 3 the value of an event, 4 the result of an earlier call,
\* 5 a reference, 6 reading and 7 writing access to the pipeline, 8 an event shared by several calls
Raw(k, s) == IF Form(k) = 8 THEN <<1, 2, 5>>[1 + (Hash(30 + 2 * k + s) % 3)] ELSE 1 + (Hash(30 + 2 * k + s) % 8)
K1(k) == IF Nin(k) < 1 THEN 0 ELSE IF Raw(k, 1) = 4 /\ (k = 1 \/ (k > 1 /\ Detached(k - 1))) THEN 3 ELSE Raw(k, 1)
K2(k) == IF Nin(k) < 2 THEN 0
         ELSE IF Raw(k, 2) = 4 /\ (k < 3 \/ (k >= 3 /\ (Detached(k - 2) \/ K1(k - 1) = 4))) THEN 3
         ELSE IF Raw(k, 2) \in {6, 7} /\ K1(k) \in {6, 7} THEN 5
         ELSE Raw(k, 2)
Kind(k, s) == IF s = 1 THEN K1(k) ELSE K2(k)
Ins(k) == 1..Nin(k)
User(k) == IF k + 1 \in Ops /\ K1(k + 1) = 4 THEN k + 1 ELSE IF k + 2 \in Ops /\ K2(k + 2) = 4 THEN k + 2 ELSE 0
Early(k) == Hash(50 + k) % 2 = 0        \* begins before its result is asked for
Throws(k) == ~Strict /\ Hash(60 + k) % 7 = 0
Shared == 20
EvOf(k, s) == 2 * (k - 1) + s
HoldEv(k) == IF ~Detached(k) /\ User(k) = 0 /\ Hash(70 + k) % 3 = 0 THEN 12 + k ELSE 0
Events == {EvOf(k, s) : <<k, s>> \in {x \in Ops \X {1, 2} : Kind(x[1], x[2]) = 3}}
          \cup {HoldEv(k) : k \in {j \in Ops : HoldEv(j) # 0}}
          \cup (IF \E k \in Ops : \E s \in Ins(k) : Kind(k, s) = 8 THEN {Shared} ELSE {})
EvFails(e) == ~Strict /\ Hash(80 + e) % 5 = 0
Access(k) == IF \E s \in Ins(k) : Kind(k, s) = 7 THEN 2 ELSE IF \E s \in Ins(k) : Kind(k, s) = 6 THEN 1 ELSE 0

----------------------------------------------------------------------------
(* calls: 0 nothing happens yet, 1 under way, 2 the function runs, 3 over with a value, 4 over with an error *)
Over(k) == st[k] \in {3, 4}
RECURSIVE Started(_)
Started(k) == k <= sub /\ (User(k) = 0 \/ Early(k) \/ (User(k) # 0 /\ Started(User(k))))
Granted(k) == \A j \in 1..(k - 1) : Access(j) = 0 \/ Over(j) \/ (Access(j) = 1 /\ Access(k) = 1)
\* an input: 0 not there, 1 a value, 2 an error
In(k, s) == LET x == Kind(k, s) IN
            CASE x \in {1, 2, 5} -> 1
              [] x = 3 -> ev[EvOf(k, s)]
              [] x = 8 -> ev[Shared]
              [] x = 4 -> LET j == IF s = 1 THEN k - 1 ELSE k - 2 IN IF st[j] = 3 THEN 1 ELSE IF st[j] = 4 THEN 2 ELSE 0
              [] OTHER -> IF Granted(k) THEN 1 ELSE 0
Arg(k, s) == LET x == Kind(k, s) IN
            CASE x \in {1, 2} -> 10 * k + s
              [] x = 3 -> 100 + EvOf(k, s)
              [] x = 8 -> 100 + Shared
              [] x = 4 -> val[IF s = 1 THEN k - 1 ELSE k - 2]
              [] x = 5 -> 500 + s
              [] OTHER -> pv
\* the step in which a call begins to wait for its inputs, and in which it hears of an input
RECURSIVE Began(_)
Began(k) == LET t == told[40 + k] IN IF User(k) = 0 \/ Early(k) THEN t ELSE LET u == Began(User(k)) IN IF u > t THEN u ELSE t
Later(a, b) == IF a > b THEN a ELSE b
When(k, s) == LET x == Kind(k, s) IN Later(Began(k), IF x = 3 THEN told[EvOf(k, s)] ELSE IF x = 8 THEN told[Shared] ELSE told[20 + (IF s = 1 THEN k - 1 ELSE k - 2)])
Why(k, s) == LET x == Kind(k, s) IN IF x = 3 THEN {EvOf(k, s)} ELSE IF x = 8 THEN {Shared} ELSE er[IF s = 1 THEN k - 1 ELSE k - 2]
Ready(k) == Started(k) /\ st[k] = 1 /\ \A s \in Ins(k) : In(k, s) # 0
Failing(k) == {s \in Ins(k) : In(k, s) = 2}
Function(k, a) == (13 * k + (IF Nin(k) > 0 THEN 7 * a[1] ELSE 0) + (IF Nin(k) > 1 THEN 3 * a[2] ELSE 0)) % 997
Args(k) == [s \in Ins(k) |-> Arg(k, s)]

\* a call fails because of the inputs which failed first
Fail(k) ==
  /\ Ready(k) /\ Failing(k) # {}
  /\ LET t == CHOOSE x \in {When(k, s) : s \in Failing(k)} : \A s \in Failing(k) : x <= When(k, s)
     IN  er' = [er EXCEPT ![k] = UNION {Why(k, s) : s \in {u \in Failing(k) : When(k, u) = t}}]
  /\ st' = [st EXCEPT ![k] = 4] /\ told' = [told EXCEPT ![20 + k] = clock]
  /\ UNCHANGED <<val, pv, calls>>
Call(k) ==
  /\ Ready(k) /\ Failing(k) = {}
  /\ st' = [st EXCEPT ![k] = 2] /\ val' = [val EXCEPT ![k] = Function(k, Args(k))] /\ calls' = [calls EXCEPT ![k] = @ + 1]
  /\ UNCHANGED <<er, pv, told>>
Return(k) ==
  /\ st[k] = 2
  /\ st' = [st EXCEPT ![k] = IF Throws(k) THEN 4 ELSE 3]
  /\ er' = IF Throws(k) THEN [er EXCEPT ![k] = {100 + k}] ELSE er
  /\ pv' = IF Access(k) = 2 /\ ~Throws(k) THEN val[k] ELSE pv
  /\ told' = [told EXCEPT ![20 + k] = clock]
  /\ UNCHANGED <<val, calls>>
Still == \A k \in Ops : ~Ready(k) /\ st[k] # 2

Pending == {e \in Events : ev[e] = 0}
Moves == (IF sub < N THEN {0} ELSE {}) \cup Pending
Submit == sub < N /\ sub' = sub + 1 /\ st' = [st EXCEPT ![sub + 1] = 1] /\ told' = [told EXCEPT ![41 + sub] = clock] /\ UNCHANGED ev
Fire(e) == ev' = [ev EXCEPT ![e] = IF EvFails(e) THEN 2 ELSE 1] /\ told' = [told EXCEPT ![e] = clock] /\ UNCHANGED <<sub, st>>
RECURSIVE Pick(_, _)
Pick(S, n) == LET x == CHOOSE y \in S : \A z \in S : y <= z IN IF n = 0 THEN x ELSE Pick(S \ {x}, n - 1)
\* mostly in the order of submission, so that events come late as well as early
Drawn == IF 0 \in Moves /\ (Moves = {0} \/ Hash(200 + clock) % 3 # 0) THEN 0
         ELSE LET P == Moves \ {0} IN Pick(P, Hash(240 + clock) % Cardinality(P))

----------------------------------------------------------------------------
(* what can be seen when nothing moves *)
Input(k) == k <= sub /\ ~Over(k)               \* what a call holds
TokIn(k, s) == LET x == Kind(k, s) IN IF x \in {1, 2} THEN Input(k) ELSE IF x = 3 THEN ev[EvOf(k, s)] = 1 /\ ~Over(k) ELSE FALSE
\* a value nobody asks for goes to the continuation, which may have to wait itself
Fin(k) == IF Detached(k) THEN 0
          ELSE IF User(k) # 0 THEN 0
          ELSE IF st[k] = 4 THEN 2
          ELSE IF st[k] # 3 THEN 0
          ELSE IF HoldEv(k) = 0 THEN 1 ELSE ev[HoldEv(k)]
Errors(k) == IF st[k] = 4 THEN er[k] ELSE IF Fin(k) = 2 THEN {HoldEv(k)} ELSE {}
TokOut(k) == st[k] = 3 /\ ~Detached(k) /\ IF User(k) # 0 THEN ~Over(User(k)) ELSE HoldEv(k) # 0 /\ ev[HoldEv(k)] = 0
TokShared == Shared \in Events /\ ev[Shared] = 1 /\ \E k \in Ops : (\E s \in Ins(k) : Kind(k, s) = 8) /\ ~Over(k)
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Join(_, _)
Join(f, n) == IF n = 0 THEN <<>> ELSE Join(f, n - 1) \o f[n]
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
See == Join([k \in Ops |-> <<calls[k], IF calls[k] > 0 THEN val[k] ELSE 0, Fin(k), B(Input(k)), B(TokIn(k, 1)), B(TokIn(k, 2)), B(TokOut(k)),
                             Cardinality(Errors(k))>> \o Listed(Errors(k))], N) \o <<B(TokShared)>>
Move(m) == IF m = 0 THEN <<0>> ELSE <<IF EvFails(m) THEN -m ELSE m>>

Init == /\ h \in Seeds /\ sub = 0 /\ pv = 7 /\ clock = 0 /\ trace = <<>>
        /\ ev = [e \in 1..20 |-> 0] /\ told = [e \in 1..(40 + NMax) |-> 0]
        /\ st = [k \in Ops |-> 0] /\ val = [k \in Ops |-> 0] /\ er = [k \in Ops |-> {}] /\ calls = [k \in Ops |-> 0]
Inner == \E k \in Ops : (Fail(k) \/ Call(k) \/ Return(k)) /\ UNCHANGED <<h, sub, ev, clock, trace>>
\* the last thing seen belongs to the move before
Outer ==
  /\ Moves # {} /\ (Free \/ Still)
  /\ \E m \in (IF Free THEN Moves ELSE {Drawn}) :
       /\ (IF m = 0 THEN Submit ELSE Fire(m))
       /\ clock' = IF Free THEN clock ELSE clock + 1
       /\ trace' = IF Free THEN trace ELSE (trace \o (IF clock > 0 THEN See ELSE <<>>) \o Move(m))
  /\ UNCHANGED <<h, val, er, pv, calls>>
Next == Inner \/ Outer
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Once == \A k \in Ops : calls[k] <= 1 /\ (st[k] = 3 => calls[k] = 1)
\* a function runs only on values, and not beside a conflicting access
OnValues == \A k \in Ops : st[k] = 2 => \A s \in Ins(k) : In(k, s) = 1
WritersAlone == \A j, k \in Ops : (j # k /\ st[j] = 2 /\ st[k] = 2 /\ Access(j) # 0 /\ Access(k) # 0) => (Access(j) = 1 /\ Access(k) = 1)
\* the outcome of a call is a function of the program, not of the order of events
RECURSIVE Fails(_)
Fails(k) == Throws(k) \/ \E s \in Ins(k) : CASE Kind(k, s) = 3 -> EvFails(EvOf(k, s))
                                             [] Kind(k, s) = 8 -> EvFails(Shared)
                                             [] Kind(k, s) = 4 -> Fails(IF s = 1 THEN k - 1 ELSE k - 2)
                                             [] OTHER -> FALSE
RECURSIVE Value(_)
RECURSIVE Before(_)
Before(k) == IF k = 1 THEN 7 ELSE IF Access(k - 1) = 2 /\ ~Fails(k - 1) THEN Value(k - 1) ELSE Before(k - 1)
Value(k) == Function(k, [s \in Ins(k) |-> IF Kind(k, s) \in {6, 7} THEN Before(k) ELSE IF Kind(k, s) = 4 THEN Value(IF s = 1 THEN k - 1 ELSE k - 2) ELSE Arg(k, s)])
Denotes == \A k \in Ops : /\ st[k] = 3 => (~Fails(k) /\ val[k] = Value(k))
                          /\ st[k] = 4 => Fails(k)
\* nothing is stuck, and nothing is kept
Ends == (Moves = {} /\ Still) => \A k \in Ops : Over(k) /\ ~TokOut(k) /\ ~Input(k) /\ ~TokIn(k, 1) /\ ~TokIn(k, 2) /\ (Detached(k) \/ User(k) # 0 \/ Fin(k) # 0)
\* somebody who can fail is not detached
Tame == \A k \in Ops : Detached(k) => ~Fails(k)
Program == <<N>> \o Join([k \in Ops |-> <<Form(k), Nin(k), K1(k), K2(k), User(k), B(Early(k)), B(Throws(k)), HoldEv(k)>>], N) \o <<Cardinality(Events) + N>>
Emit == (Moves = {} /\ Still /\ ~Free) => PrintT(<<"K", Program, trace \o See, pv>>)
=============================================================================
