------------------------------- MODULE MatrixIO -------------------------------
(* Matrices written out and read back.                                                       *)
(*                                                                                           *)
(* State: matrices held by a grid of processes, each on its own distribution; the datasets   *)
(* of two files (1: opened by all processes together, 2: written by the first process alone);*)
(* what every process transferred.  A transition is a call.  Writing and reading move one    *)
(* rectangle per tile: `Slabs` says which, and the contents of a dataset (of a matrix that   *)
(* was read) are put together from the rectangles.  A behaviour is a function of its seed.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Seeds, Depth, NMax, Grids, Square

VARIABLES h, cfg, mats, sets, moved, calls, tries
vars == <<h, cfg, mats, sets, moved, calls, tries>>

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Hash(k) == Mix(h, k)
MixIJ(a, i, j) == Mix(Mix(a, i * 61 + 7), j * 89 + 3)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Mk(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
Nil == 0

\* element: <<real, imaginary>>; 10001 stands for not-a-number, 10002 and 10003 for the infinities
Part(x) == IF (x % 37) = 5 THEN 10001 + ((x \div 37) % 3) ELSE (x % 1999) - 999
Elem(x, cplx) == <<Part(x), IF cplx THEN Part((x * 7 + 3) % 40009) ELSE 0>>

----------------------------------------------------------------------------
(* the tiles of one direction: n elements, tiles of t, the first tile begins o elements early *)
RECURSIVE Cuts(_, _, _, _)
Cuts(n, t, o, e) == IF e >= n THEN <<>>
                    ELSE LET w == Min(n - e, t - ((e + o) % t)) IN <<<<e, w>>>> \o Cuts(n, t, o, e + w)
Owner(e, b, o, s, P) == (s + ((e + o) \div b)) % P
\* rectangles <<process, first row, first column, rows, columns>> of a matrix
Slabs(a) ==
  LET R == Cuts(a.m, a.tr, a.offr, 0) C == Cuts(a.n, a.tc, a.offc, 0)
      P == IF a.dist THEN cfg.P ELSE 1 Q == IF a.dist THEN cfg.Q ELSE 1
  IN  {<<Owner(R[i][1], a.tr * a.fr, a.offr, a.sr, P) * Q + Owner(C[j][1], a.tc * a.fc, a.offc, a.sc, Q), R[i][1], C[j][1], R[i][2], C[j][2]>> :
         i \in 1..Len(R), j \in 1..Len(C)}
Covers(s, i, j) == i > s[2] /\ i <= s[2] + s[4] /\ j > s[3] /\ j <= s[3] + s[5]
\* put together from the rectangles: element (i, j) lies in a tile, at some place of that tile
Tiled(a, v) == [s \in Slabs(a) |-> [i \in 1..s[4] |-> [j \in 1..s[5] |-> v[s[2] + i][s[3] + j]]]]
Assemble(a, tiles) == Mk(a.m, a.n, LAMBDA i, j : LET s == CHOOSE t \in DOMAIN tiles : Covers(t, i, j) IN tiles[s][i - s[2]][j - s[3]])
RECURSIVE Flat(_)
Flat(S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE x \in S : TRUE IN s \o Flat(S \ {s})
RECURSIVE FlatVal(_, _, _)
FlatVal(v, m, n) ==  \* column by column
  LET RECURSIVE go(_, _)
      go(i, j) == IF j > n THEN <<>> ELSE IF i > m THEN go(1, j + 1) ELSE v[i][j] \o go(i + 1, j)
  IN IF m = 0 \/ n = 0 THEN <<>> ELSE go(1, 1)

----------------------------------------------------------------------------
Shape(k, dist) ==
  LET t == <<1, 2, 3, 4>>
      tr == t[(Hash(k + 2) % 4) + 1] tc == IF Square THEN tr ELSE t[(Hash(k + 3) % 4) + 1]
      m == Hash(k) % (NMax + 1)
      fr == 1 + (Hash(k + 4) % 3) fc == IF Square THEN fr ELSE 1 + (Hash(k + 5) % 3)
      P == IF dist THEN cfg.P ELSE 1 Q == IF dist THEN cfg.Q ELSE 1
  IN [m |-> m, n |-> IF Square THEN m ELSE Hash(k + 1) % (NMax + 1), tr |-> tr, tc |-> tc, fr |-> fr, fc |-> fc,
      sr |-> Hash(k + 7) % P, sc |-> Hash(k + 8) % Q,
      offr |-> 0, offc |-> 0, dist |-> dist]
B(x) == IF x THEN 1 ELSE 0
FlatShape(a) == <<a.m, a.n, a.tr, a.tc, a.fr, a.fc, a.sr, a.sc, a.offr, a.offc, B(a.dist)>>

InitOne(s) ==
  LET g == Grids[(Mix(s, 4) % Len(Grids)) + 1] IN
  /\ cfg = [seed |-> s, P |-> g[1], Q |-> g[2], type |-> Mix(s, 5) % 4]
  /\ mats = <<>> /\ sets = <<>> /\ moved = {} /\ calls = <<>> /\ tries = 0 /\ h = Mix(s, 77)
Init == \E s \in Seeds : InitOne(s)
Cplx == cfg.type >= 2
Keep == UNCHANGED cfg
Record(t) == calls' = Append(calls, t)

\* 20: a new matrix
New == \E a \in {Shape(20, Hash(18) % 3 # 0)} :
  \E v \in {Mk(a.m, a.n, LAMBDA i, j : Elem(MixIJ(Hash(19), i, j), Cplx))} :
    /\ mats' = Append(mats, [shape |-> a, val |-> v]) /\ UNCHANGED sets /\ moved' = {} /\ Keep
    /\ Record(<<20>> \o FlatShape(a) \o FlatVal(v, a.m, a.n))
\* 21: a task changes an element; nobody waits for it
Poke(x, i, j) ==
  /\ mats' = [mats EXCEPT ![x].val[i][j] = Elem(Hash(61), Cplx)] /\ UNCHANGED sets /\ moved' = {} /\ Keep
  /\ Record(<<21, x, i - 1, j - 1>> \o Elem(Hash(61), Cplx))
\* 22: a matrix is written to a dataset; the rectangles of all tiles are transferred by their owners
\*     (of a local matrix in the file of all processes: by the first one)
Write(x, f) ==
  LET a == mats[x].shape v == mats[x].val IN
  /\ f = 2 => ~a.dist
  /\ \E t \in {Tiled(a, v)} :
       /\ sets' = Append(sets, [file |-> f, m |-> a.m, n |-> a.n, val |-> Assemble(a, t), was |-> v])
       /\ moved' = DOMAIN t
  /\ UNCHANGED mats /\ Keep
  /\ Record(<<22, x, f, Cardinality(Slabs(a))>> \o Flat(Slabs(a)) \o FlatVal(v, a.m, a.n))
\* 23: a dataset is read to a matrix of any distribution (one tile per block, no offset), with the file as it is open
\*     or opened again to be read
Read(d, again) ==
  \E a \in {[Shape(40, Hash(38) % 3 # 0) EXCEPT !.m = sets[d].m, !.n = sets[d].n, !.fr = 1, !.fc = 1, !.offr = 0, !.offc = 0]} :
    /\ sets[d].file = 2 => again
    /\ \E t \in {Tiled(a, sets[d].val)} :
         /\ mats' = Append(mats, [shape |-> a, val |-> Assemble(a, t)])
         /\ moved' = DOMAIN t
    /\ UNCHANGED sets /\ Keep
    /\ Record(<<23, d, B(again)>> \o FlatShape(a) \o <<Cardinality(Slabs(a))>> \o Flat(Slabs(a)) \o FlatVal(sets[d].val, a.m, a.n))
\* 24: a matrix, or a part of it, is printed
Part4(a) == IF Hash(50) % 2 = 0 THEN <<0, 0, a.m, a.n>>
            ELSE LET r == Hash(51) % (a.m + 1) c == Hash(52) % (a.n + 1)
                 IN <<r, c, Hash(53) % (a.m - r + 1), Hash(54) % (a.n - c + 1)>>
Text(x) ==
  LET a == mats[x].shape P == IF a.dist THEN cfg.P ELSE 1 Q == IF a.dist THEN cfg.Q ELSE 1 IN
  \E p \in {Part4(a)} :
  \E b \in {[a EXCEPT !.m = p[3], !.n = p[4], !.offr = p[1] % (a.tr * a.fr), !.offc = p[2] % (a.tc * a.fc),
                     !.sr = Owner(p[1], a.tr * a.fr, 0, a.sr, P), !.sc = Owner(p[2], a.tc * a.fc, 0, a.sc, Q)]} :
    /\ UNCHANGED <<mats, sets>> /\ moved' = Slabs(b) /\ Keep
    /\ Record(<<24, x>> \o p \o <<Cardinality(Slabs(b))>> \o Flat(Slabs(b))
              \o FlatVal(Mk(p[3], p[4], LAMBDA i, j : mats[x].val[i + p[1]][j + p[2]]), p[3], p[4]))

Pick(S) == IF S = {} THEN Nil ELSE LET k == Hash(90) % Cardinality(S) IN CHOOSE x \in S : Cardinality({y \in S : y < x}) = k
Act ==
  LET op == Hash(80) % 10
      x == Pick(1..Len(mats)) d == Pick(1..Len(sets))
  IN  IF mats = <<>> \/ (op = 0 /\ Len(mats) < 4) THEN New
      ELSE IF op \in {1, 2} /\ mats[x].shape.m > 0 /\ mats[x].shape.n > 0
           THEN Poke(x, 1 + (Hash(62) % mats[x].shape.m), 1 + (Hash(63) % mats[x].shape.n))
      ELSE IF op \in {3, 4, 5} /\ Len(sets) < 4 THEN Write(x, IF ~mats[x].shape.dist /\ (Hash(70) % 2) = 0 THEN 2 ELSE 1)
      ELSE IF op \in {6, 7, 8} /\ sets # <<>> /\ Len(mats) < 5 THEN Read(d, sets[d].file = 2 \/ (Hash(71) % 2) = 0)
      ELSE IF op = 9 THEN Text(x)
      ELSE UNCHANGED <<cfg, mats, sets, calls>> /\ moved' = {}
Next == /\ Len(calls) < Depth /\ tries < 4 * Depth
        /\ Act
        /\ h' = Mix(h, 5) /\ tries' = tries + 1
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* every element is transferred exactly once
Once == \A x \in 1..Len(mats) : LET a == mats[x].shape IN
          \A i \in 1..a.m : \A j \in 1..a.n : Cardinality({s \in Slabs(a) : Covers(s, i, j)}) = 1
Inside == \A s \in moved : s[1] \in 0..(cfg.P * cfg.Q - 1) /\ s[4] > 0 /\ s[5] > 0
\* a dataset is the matrix as it was when it was written, whatever is done to the matrix later
Faithful == \A d \in 1..Len(sets) : sets[d].val = sets[d].was
Stays == [][\A d \in 1..Len(sets) : sets'[d] = sets[d]]_vars

Done == Len(calls) = Depth \/ tries = 4 * Depth
RECURSIVE FlatCalls(_)
FlatCalls(c) == IF c = <<>> THEN <<>> ELSE <<Len(c[1])>> \o c[1] \o FlatCalls(Tail(c))
Emit == Done => PrintT(<<"I", cfg.seed, cfg.P, cfg.Q, cfg.type, Len(calls)>> \o FlatCalls(calls))
============================================================================
