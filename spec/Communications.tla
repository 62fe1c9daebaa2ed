--------------------------- MODULE Communications ---------------------------
(* Asynchronous operations between the processes of a P x Q grid.

   Every process has three tiles; tiles 1 and 2 have one shape, tile 3 (and a fourth) another.  The elements of a
   tile are fixed multiples of one number, its value, so a tile is its value here; all operations work element by element.

   A program is a list of operations, which every process submits in this order (those it takes part in) without waiting.
   An operation has a communicator: 0, 1: two communicators of all processes; 2, 3: two of each row; 4, 5: two of
   each column.  Operations <<kind, comm, group, a, b, x, y, op, chain, v>>:
     1 broadcast      from member a: its tile x into the others' tiles y
     2 reduce         to member a, in place in its tile x; the others give their tiles y
     3 all-reduce     tiles x into tiles y
     4 all-reduce     in place in tiles x
     5 send           from member a, its tile x, to member b, its tile y; v: through an exclusive (0) or shared (1) turn
     6 sum            of members a and b: each gets the sum of both tiles x in its tile y
     7 add v to tile x of process a   8 copy tile x to tile y of process a   9 look at tile x of process a
     10 set tile x of process a to v
   op: 0 sum, 1 maximum, 2 minimum; chain: whoever receives goes on with the tile it is handed, adding one.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Seeds, Depth, Grids, Mode
VARIABLES seed, prog, reg, posted, done, held
vars == <<seed, prog, reg, posted, done, held>>

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Abs(x) == IF x < 0 THEN -x ELSE x
GridOf(s) == Grids[(Mix(s, 4) % Len(Grids)) + 1]
P == GridOf(seed)[1]
Q == GridOf(seed)[2]
Proc == 0..(P * Q - 1)
Tiles == 1..4
\* the other tile of the same shape
Mate(x) == CASE x = 1 -> 2 [] x = 2 -> 1 [] x = 3 -> 4 [] OTHER -> 3
Member(c, g, m) == IF c <= 1 THEN m ELSE IF c <= 3 THEN g * Q + m ELSE m * Q + g
SizeOf(c) == IF c <= 1 THEN P * Q ELSE IF c <= 3 THEN Q ELSE P
Groups(c) == IF c <= 1 THEN 1 ELSE IF c <= 3 THEN P ELSE Q
All(o) == {Member(o[2], o[3], m) : m \in 0..(SizeOf(o[2]) - 1)}
A(o) == Member(o[2], o[3], o[4])
B(o) == Member(o[2], o[3], o[5])
Local(o) == o[1] >= 7
Part(o) == IF Local(o) THEN {o[4]} ELSE IF o[1] <= 4 THEN All(o) ELSE {A(o), B(o)}
\* tiles a process reads and writes in an operation
Reads(o, r) == CASE o[1] = 1 -> IF r = A(o) THEN {o[6]} ELSE {}
                 [] o[1] = 2 -> IF r = A(o) THEN {} ELSE {o[7]}
                 [] o[1] \in {3, 6, 8} -> {o[6]}
                 [] o[1] = 5 -> IF r = A(o) THEN {o[6]} ELSE {}
                 [] o[1] = 9 -> {o[6]}
                 [] OTHER -> {}
Writes(o, r) == CASE o[1] = 1 -> IF r = A(o) THEN {} ELSE {o[7]}
                  [] o[1] = 2 -> IF r = A(o) THEN {o[6]} ELSE {}
                  [] o[1] \in {3, 6, 8} -> {o[7]}
                  [] o[1] = 5 -> IF r = A(o) THEN {} ELSE {o[7]}
                  [] o[1] \in {4, 7, 10} -> {o[6]}
                  [] OTHER -> {}
\* the value a process brings into an operation, given its tiles
Brings(o, r, t) == CASE o[1] = 2 -> t[IF r = A(o) THEN o[6] ELSE o[7]]
                      [] o[1] \in {1, 5} -> IF r = A(o) THEN t[o[6]] ELSE 0
                      [] OTHER -> t[o[6]]
RECURSIVE Fold(_, _, _)
Fold(op, f, D) == LET x == CHOOSE y \in D : TRUE IN
                  IF Cardinality(D) = 1 THEN f[x]
                  ELSE LET u == Fold(op, f, D \ {x}) v == f[x]
                       IN IF op = 0 THEN u + v ELSE IF op = 1 THEN (IF u > v THEN u ELSE v) ELSE (IF u < v THEN u ELSE v)
\* what a process writes, given what everybody brought
Gets(o, r, f) == LET ch == o[9] IN
                 CASE o[1] = 1 -> f[A(o)] + ch
                   [] o[1] \in {2, 3, 4} -> Fold(o[8], f, Part(o)) + ch
                   [] o[1] = 5 -> f[A(o)] + ch
                   [] o[1] = 6 -> f[A(o)] + f[B(o)]
                   [] o[1] = 7 -> f[r] + o[10]
                   [] o[1] = 8 -> f[r]
                   [] o[1] = 10 -> o[10]
                   [] OTHER -> 0
\* the program, one operation at a time
Apply(o, t) == LET f == TLCEval([r \in Part(o) |-> Brings(o, r, t[r])])
               IN [r \in Proc |-> IF r \notin Part(o) THEN t[r] ELSE TLCEval([x \in Tiles |-> IF x \in Writes(o, r) THEN Gets(o, r, f) ELSE t[r][x]])]
----------------------------------------------------------------------------
(* Programs, a function of their seed *)
Cplx == Mix(seed, 5) % 4 = 0
Start(s) == TLCEval([r \in Proc |-> TLCEval([x \in Tiles |-> (Mix(Mix(s, 900 + r), x) % 201) - 100])])
Op(k, t) ==
  LET h == Mix(Mix(seed, 50), k)
      r(i) == Mix(h, i)
      kd == <<1, 1, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9>>[(r(1) % 12) + 1]
      c == r(2) % 6
      g == r(3) % Groups(c)
      n == SizeOf(c)
      a == r(4) % n
      b == (a + 1 + (r(5) % (IF n > 1 THEN n - 1 ELSE 1))) % n
      x == (r(6) % 4) + 1
      y == IF r(7) % 3 = 0 THEN Mate(x) ELSE x
      op == IF Cplx THEN 0 ELSE r(8) % 3
      p == r(9) % (P * Q)
      big == \E q \in Proc : \E z \in Tiles : Abs(t[q][z]) > 100000
  IN IF big THEN LET q == CHOOSE q \in Proc : \E z \in Tiles : Abs(t[q][z]) > 100000
                     z == CHOOSE z \in Tiles : Abs(t[q][z]) > 100000
                 IN <<10, 9, 0, q, 0, z, z, 0, 0, (r(10) % 201) - 100>>
     ELSE IF kd >= 7 THEN <<kd, 9, 0, p, 0, x, IF kd = 8 THEN Mate(x) ELSE x, 0, 0, (r(10) % 201) - 100>>
     ELSE IF kd >= 5 /\ n = 1 THEN <<9, 9, 0, p, 0, x, x, 0, 0, 0>>
     ELSE IF kd = 3 \/ kd = 6 THEN <<kd, c, g, a, b, x, Mate(x), op, IF kd = 3 THEN r(11) % 2 ELSE 0, 0>>
     ELSE <<kd, c, g, a, b, x, y, op, r(11) % 2, r(12) % 2>>
RECURSIVE Build(_, _, _, _)
Build(k, t, ops, looks) ==
  IF k > Depth THEN <<ops, t, looks>>
  ELSE LET o == TLCEval(Op(k, t)) u == TLCEval(Apply(o, t))
       IN Build(k + 1, u, Append(ops, o), IF o[1] = 9 THEN Append(looks, t[o[4]][o[6]]) ELSE looks)
----------------------------------------------------------------------------
(* The same program as it runs: operations are started when the tiles are free and the earlier operations on the
   communicator have been started, and end when everybody has brought what is needed.  With Rendezvous
   even a sender waits for all others. *)
Rendezvous == Mode = "rendezvous"
Touch(o, r) == Reads(o, r) \cup Writes(o, r)
Conflict(o, q, r) == (Writes(o, r) \cap Touch(q, r)) \cup (Writes(q, r) \cap Touch(o, r)) /= {}
SharedTurn(o) == (o[1] = 5 /\ o[10] = 1) \/ o[1] = 6
InOrder(o, q, r) == ~Local(o) /\ ~Local(q) /\ o[2] = q[2] /\ o[3] = q[3] /\ ~(SharedTurn(o) /\ SharedTurn(q))
MyOps(r) == {k \in 1..Len(prog) : r \in Part(prog[k])}
Init == /\ seed \in Seeds
        /\ prog = Build(1, Start(seed), <<>>, <<>>)[1]
        /\ reg = Start(seed)
        /\ posted = [r \in Proc |-> {}] /\ done = [r \in Proc |-> {}]
        /\ held = [k \in 1..Len(prog) |-> [r \in {} |-> 0]]
Post(r, k) == /\ k \in MyOps(r) \ posted[r]
              /\ \A q \in MyOps(r) : q < k => /\ Conflict(prog[k], prog[q], r) => q \in done[r]
                                              /\ InOrder(prog[k], prog[q], r) => q \in posted[r]
              /\ posted' = [posted EXCEPT ![r] = @ \cup {k}]
              /\ held' = [held EXCEPT ![k] = [z \in (DOMAIN @) \cup {r} |-> IF z = r THEN Brings(prog[k], r, reg[r]) ELSE @[z]]]
              /\ UNCHANGED <<seed, prog, reg, done>>
Needs(o, r) == IF Rendezvous \/ o[1] \in {3, 4, 6} THEN Part(o)
               ELSE CASE o[1] \in {1, 5} -> {A(o), r} [] o[1] = 2 -> (IF r = A(o) THEN Part(o) ELSE {r}) [] OTHER -> {r}
End(r, k) == /\ k \in posted[r] \ done[r]
             /\ Needs(prog[k], r) \subseteq DOMAIN held[k]
             /\ done' = [done EXCEPT ![r] = @ \cup {k}]
             /\ reg' = [reg EXCEPT ![r] = [x \in Tiles |-> IF x \in Writes(prog[k], r) THEN Gets(prog[k], r, held[k]) ELSE @[x]]]
             /\ UNCHANGED <<seed, prog, posted, held>>
Next == \E r \in Proc : \E k \in 1..Len(prog) : Post(r, k) \/ End(r, k)
Spec == Init /\ [][Next]_vars
Over == \A r \in Proc : done[r] = MyOps(r)
\* it ends, and everybody has what the program, run one operation at a time, leaves
Terminates == ENABLED Next \/ Over
Serial == Over => reg = Build(1, Start(seed), <<>>, <<>>)[2]
\* what was brought is still there when the operation ends
Steady == \A r \in Proc : \A k \in posted[r] \ done[r] : held[k][r] = Brings(prog[k], r, reg[r])
----------------------------------------------------------------------------
GenInit == seed \in Seeds /\ prog = 0 /\ reg = 0 /\ posted = 0 /\ done = 0 /\ held = 0
GenSpec == GenInit /\ [][FALSE]_vars
Flat(t) == FlattenSeq([r \in 1..(P * Q) |-> [x \in 1..4 |-> t[r - 1][x]]])
Emit == LET b == Build(1, Start(seed), <<>>, <<>>)
        IN PrintT(<<"C", seed, P, Q, IF Cplx THEN 1 ELSE 0, Depth, FlattenSeq(b[1]), Flat(Start(seed)), Flat(b[2]), Len(b[3]), b[3]>>)
=============================================================================
