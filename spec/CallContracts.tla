---- MODULE CallContracts ----
(* The contracts of the library's routines: which combinations of matrices, grids and options a call may be given.

   A state is a call that a user is about to make: the routine, the form (local or distributed), the grid, the shape of
   each matrix (size, tile, tiles per block, where it lives) and the numbers that go with it.  Behaviours start from
   calls which fit and go on by changing one field of one argument at a time.  Accepts says what the documentation asks
   for.  Calls are composed of other calls of the library: what a routine promises to accept has to be acceptable to
   its parts (Closed), otherwise it would be refused in the middle of the work. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Routines, Forms, Grids, Bases, MaxEdits, Thin
VARIABLES c, edits

\* routines
Chol == 1
Trsm == 2
Trmm == 3
Hemm == 4
TrInv == 5
ChInv == 6
G2S == 7
Heev == 8
HeevR == 9       \* result allocated by the library
Hegv == 10
HegvR == 11
Hegvf == 12      \* the second matrix is given by its factor
HegvfR == 13
R2B == 14
B2T == 15
Tridiag == 16
BtB2T == 17
BtR2B == 18
Perm == 19
MaxNorm == 20

MaxOf(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
\* where a matrix lives: 0 on this process only, 1 on the grid of the call, 2 on a larger grid,
\* 3 on a grid of the same shape, seen from another place
Mat(m, n, tr, tc, g) == [m |-> m, n |-> n, tr |-> tr, tc |-> tc, kr |-> 1, kc |-> 1, g |-> g]

\* the band that the eigensolver takes when the configured minimum is 2
Band(nb) == IF nb < 2 THEN nb ELSE CHOOSE b \in 2..nb : (nb % b) = 0 /\ \A x \in 2..(b - 1) : (nb % x) # 0

---------------------------------------------------------------------------
\* predicates on one matrix
Square(x) == x.m = x.n
SquareBlock(x) == x.tr * x.kr = x.tc * x.kc
SquareTile(x) == x.tr = x.tc
OneTile(x) == x.kr = 1 /\ x.kc = 1
Local(k, x) == x.g = 0 \/ (x.g = 1 /\ k.P * k.Q = 1)
OnGrid(k, x) == IF k.dist = 0 THEN Local(k, x) ELSE x.g = 1 \/ (x.g = 0 /\ k.P * k.Q = 1)
SameBlock(x, y) == x.tr * x.kr = y.tr * y.kr /\ x.tc * x.kc = y.tc * y.kc
SameSize(x, y) == x.m = y.m /\ x.n = y.n
Empty(x) == x.m = 0 \/ x.n = 0
\* square in every respect and in the right place: what most routines want
Plain(k, x) == Square(x) /\ SquareBlock(x) /\ OneTile(x) /\ OnGrid(k, x)

Dims(m, n, op) == IF op = 0 THEN <<m, n>> ELSE <<n, m>>
Fits3(a, b, r) == a[1] = r[1] /\ a[2] = b[1] /\ b[2] = r[2]
Multipliable(a, b, r, opa, opb) ==
  /\ Fits3(Dims(a.m, a.n, opa), Dims(b.m, b.n, opb), Dims(r.m, r.n, 0))
  /\ Empty(a) \/ Empty(r) \/ Fits3(Dims(a.tr, a.tc, opa), Dims(b.tr, b.tc, opb), Dims(r.tr, r.tc, 0))

\* first local tile in or after the given global tile, for the place p of Q (first tile in place 0)
Next(t, p, Q) == (t \div Q) + (IF p < (t % Q) THEN 1 ELSE 0)
Blocks(m, band, nb) == MaxOf(0, CeilDiv(m - band - 1, nb))
Col(k) == IF k.dist = 0 THEN 0 ELSE k.rank % k.Q

\* predicates on the arguments of the eigensolvers
Eigenpairs(k, a, w, v) ==
  /\ Plain(k, v) /\ SameSize(v, a) /\ SameBlock(v, a)
  /\ Local(k, w) /\ OneTile(w) /\ w.m = v.m /\ w.n = 1 /\ w.tr = v.tr
Spectrum(k, a) == k.begin = 0 /\ k.end >= k.begin /\ k.end <= a.m
Pair(k, a, b) == Plain(k, a) /\ Plain(k, b) /\ SameSize(a, b) /\ SameBlock(a, b)

Accepts(k) ==
  LET A == k.mats[1]
      B == k.mats[2]
      W == k.mats[3]
      V == k.mats[4]
      f == k.f IN
  CASE f = Chol -> Plain(k, A)
    [] f \in {Trsm, Trmm} ->
         /\ Plain(k, A) /\ OneTile(B) /\ OnGrid(k, B)
         /\ IF k.side = 0 THEN Multipliable(A, B, B, k.op, 0) ELSE Multipliable(B, A, B, 0, k.op)
    [] f = Hemm -> Plain(k, A) /\ OneTile(B) /\ OneTile(W) /\ OnGrid(k, B) /\ OnGrid(k, W) /\ Multipliable(A, B, W, 0, 0)
    [] f \in {TrInv, ChInv} -> Square(A) /\ SquareTile(A) /\ OnGrid(k, A) /\ (k.dist = 1 => OneTile(A))
    [] f = G2S -> Pair(k, A, B)
    [] f = Heev -> Plain(k, A) /\ Eigenpairs(k, A, B, W) /\ Spectrum(k, A)
    [] f = HeevR -> Plain(k, A) /\ Spectrum(k, A)
    [] f \in {Hegv, Hegvf} -> Pair(k, A, B) /\ Eigenpairs(k, A, W, V) /\ Spectrum(k, A)
    [] f \in {HegvR, HegvfR} -> Pair(k, A, B) /\ Spectrum(k, A)
    [] f \in {R2B, B2T} -> Plain(k, A) /\ k.band >= 2 /\ ((A.tr % k.band) = 0)
    [] f = Tridiag ->  \* tridiagonal matrix, eigenvalues, eigenvectors
         /\ Local(k, A) /\ A.n = 2 /\ A.tc * A.kc = 2 /\ OneTile(A)
         /\ Local(k, B) /\ B.n = 1 /\ OneTile(B)
         /\ Plain(k, W)
         /\ A.tr = W.tr /\ A.tr = B.tr /\ A.m = W.m /\ A.m = B.m
    [] f = BtB2T ->  \* reflectors, eigenvectors
         /\ Plain(k, A) /\ OnGrid(k, B) /\ OneTile(B) /\ A.m = B.m /\ A.tr = B.tr
         /\ k.band >= 2 /\ ((A.tr % k.band) = 0)
    [] f = BtR2B ->  \* eigenvectors, reflectors, factors
         /\ OnGrid(k, A) /\ OneTile(A) /\ Plain(k, B) /\ A.m = B.m /\ A.tr = B.tr
         /\ IF k.dist = 0 THEN CeilDiv(W.m, W.tr) = Blocks(B.m, k.band, B.tr)
            ELSE Next(CeilDiv(W.m, W.tr), Col(k), k.Q) = Next(Blocks(B.m, k.band, B.tr), Col(k), k.Q)
    [] f = Perm ->  \* table, input, output
         /\ Local(k, A) /\ OneTile(A) /\ A.n = 1
         /\ Plain(k, B) /\ OnGrid(k, W) /\ OneTile(W) /\ SameSize(B, W) /\ SameBlock(B, W)
         /\ A.tr = B.tr /\ A.m = B.m
         /\ k.begin >= 0 /\ k.begin <= k.end /\ k.end <= CeilDiv(B.m, B.tr)
    [] f = MaxNorm -> OnGrid(k, A) /\ OneTile(A) /\ (k.uplo = 0 /\ ~Empty(A) => Square(A) /\ SquareTile(A))

---------------------------------------------------------------------------
\* parts of a composed call
Sub(k, f, ms) == [k EXCEPT !.f = f, !.mats = ms, !.band = Band(k.mats[1].tr), !.uplo = 0]
Parts(k) ==
  LET A == k.mats[1]
      nb == A.tr
      n == A.m
      g == k.dist
      v == Mat(n, n, nb, nb, g)
      w == Mat(n, 1, nb, 1, 0)
      taus == Mat(MaxOf(0, n - Band(nb) - 1), 1, nb, 1, g)
      heev(V, W) == {Sub(k, R2B, <<A>>), Sub(k, B2T, <<A>>), Sub(k, Tridiag, <<Mat(n, 2, nb, 2, 0), W, V>>),
                     Sub(k, BtB2T, <<v, [V EXCEPT !.n = k.end]>>), Sub(k, BtR2B, <<[V EXCEPT !.n = k.end], A, taus>>)} IN
  CASE k.f = Heev -> heev(k.mats[3], k.mats[2])
    [] k.f = HeevR -> {Sub(k, Heev, <<A, w, v>>)} \cup heev(v, w)
    [] k.f \in {Hegv, Hegvf} ->
         {Sub(k, G2S, <<A, k.mats[2]>>), Sub(k, Heev, <<A, k.mats[3], k.mats[4]>>),
          [Sub(k, Trsm, <<k.mats[2], [k.mats[4] EXCEPT !.n = k.end]>>) EXCEPT !.side = 0, !.op = 2]}
         \cup (IF k.f = Hegv THEN {Sub(k, Chol, <<k.mats[2]>>)} ELSE {})
    [] k.f \in {HegvR, HegvfR} -> {Sub(k, IF k.f = HegvR THEN Hegv ELSE Hegvf, <<A, k.mats[2], w, v>>)}
    [] k.f = ChInv -> {Sub(k, TrInv, <<A>>)}
    [] OTHER -> {}
Smallest(k) == k.mats[1].tr >= 2
Closed == Accepts(c) /\ Smallest(c) => \A p \in Parts(c) : Accepts(p)
\* on a single process both forms ask for the same, except where blocks of several tiles are not supported on grids
OnOneProcess ==
  c.dist = 1 /\ c.P * c.Q = 1 /\ (\A i \in 1..Len(c.mats) : c.mats[i].g < 2 /\ OneTile(c.mats[i])) /\ c.f # MaxNorm
    => (Accepts(c) <=> Accepts([c EXCEPT !.dist = 0, !.mats = [i \in 1..Len(c.mats) |-> [c.mats[i] EXCEPT !.g = 0]]]))

---------------------------------------------------------------------------
\* calls that fit
Call(f, d, P, Q, r, n, m, nb, mb, x) ==
  LET g == d
      sq == Mat(n, n, nb, nb, g)
      side == x % 2
      op == IF f = Trmm /\ d = 1 THEN 0 ELSE (x \div 2) % 3
      band == Band(nb)
      w == Mat(n, 1, nb, 1, 0)
      ms == CASE f \in {Chol, TrInv, ChInv, HeevR, R2B, B2T} -> <<sq>>
              [] f \in {Trsm, Trmm} -> IF side = 0 THEN <<sq, Mat(n, m, nb, mb, g)>> ELSE <<sq, Mat(m, n, mb, nb, g)>>
              [] f = Hemm -> <<sq, Mat(n, m, nb, mb, g), Mat(n, m, nb, mb, g)>>
              [] f \in {G2S, HegvR, HegvfR} -> <<sq, sq>>
              [] f = Heev -> <<sq, w, sq>>
              [] f \in {Hegv, Hegvf} -> <<sq, sq, w, sq>>
              [] f = Tridiag -> <<Mat(n, 2, nb, 2, 0), w, sq>>
              [] f = BtB2T -> <<sq, Mat(n, m, nb, mb, g)>>
              [] f = BtR2B -> <<Mat(n, m, nb, mb, g), sq, Mat(MaxOf(0, n - band - 1), 1, nb, 1, g)>>
              [] f = Perm -> <<w, sq, sq>>
              [] f = MaxNorm -> IF x % 2 = 0 THEN <<sq>> ELSE <<Mat(n, m, nb, mb, g)>> IN
  [f |-> f, dist |-> d, P |-> P, Q |-> Q, rank |-> r, side |-> side, op |-> op, uplo |-> (IF f \in {Chol, Trsm, Trmm, TrInv, ChInv, G2S} THEN (x \div 6) % 2 ELSE IF f = MaxNorm THEN x % 2 ELSE 0),
   begin |-> 0, end |-> IF f = Perm THEN CeilDiv(n, nb) ELSE n, band |-> band, mats |-> ms]

Init == /\ edits = 0
        /\ \E f \in Routines, d \in Forms, gi \in 1..Len(Grids), b \in 1..Len(Bases) :
             \E P \in {Grids[gi][1]}, Q \in {Grids[gi][2]} :
               /\ (d = 0 => gi = 1) /\ (f = MaxNorm => d = 1)
               /\ c = Call(f, d, P, Q, (f * 7 + b * 3 + gi) % (P * Q), Bases[b][1], Bases[b][2], Bases[b][3], Bases[b][4], f + 5 * b + gi)

SetMat(i, y) == c' = [c EXCEPT !.mats[i] = y]
EditMat == \E i \in 1..Len(c.mats) : LET x == c.mats[i] IN
  \/ SetMat(i, [x EXCEPT !.m = @ + 1])
  \/ SetMat(i, [x EXCEPT !.n = @ + 1])
  \/ x.m > 0 /\ SetMat(i, [x EXCEPT !.m = @ - 1])
  \/ x.n > 1 /\ SetMat(i, [x EXCEPT !.n = @ - 1])
  \/ SetMat(i, [x EXCEPT !.tr = @ + 1])
  \/ SetMat(i, [x EXCEPT !.tc = @ + 1])
  \/ SetMat(i, [x EXCEPT !.m = @ + 1, !.n = @ + 1])
  \/ SetMat(i, [x EXCEPT !.tr = @ + 1, !.tc = @ + 1])
  \* the same blocks with smaller tiles
  \/ OneTile(x) /\ ((x.tr % 2) = 0) /\ ~(c.f = BtR2B /\ i = 3)
     /\ \/ SetMat(i, [x EXCEPT !.tr = @ \div 2, !.kr = 2])
        \/ ((x.tc % 2) = 0) /\ SetMat(i, [x EXCEPT !.tr = @ \div 2, !.kr = 2, !.tc = @ \div 2, !.kc = 2])
  \/ x.kr = 1 /\ ~(c.f = BtR2B /\ i = 3) /\ SetMat(i, [x EXCEPT !.kr = 2])
  \/ x.kc = 1 /\ ~(c.f = BtR2B /\ i = 3) /\ SetMat(i, [x EXCEPT !.kc = 2])
  \/ \E g \in 0..3 : /\ g # x.g
                     /\ (g = 1 => c.dist = 1)
                     /\ (g = 3 => c.dist = 1 /\ c.P * c.Q > 1)
                     /\ (c.f = BtR2B => i # 3)  \* not asked for
                     /\ SetMat(i, [x EXCEPT !.g = g])
HasSpectrum == c.f \in Heev..HegvfR
HasBand == c.f \in {R2B, B2T, BtB2T}
EditNumber ==
  \/ /\ HasSpectrum \/ c.f = Perm
     /\ \/ c' = [c EXCEPT !.begin = @ + 1]
        \/ c' = [c EXCEPT !.end = @ + 1]
        \/ c.begin = 0 /\ c' = [c EXCEPT !.begin = -1]
        \/ c.end > 0 /\ c' = [c EXCEPT !.end = @ - 1]
        \/ c.end >= 0 /\ c' = [c EXCEPT !.end = -1]
  \/ HasBand /\ (c' = [c EXCEPT !.band = 1] \/ c' = [c EXCEPT !.band = @ + 1] \/ c' = [c EXCEPT !.band = @ * 2])
Edit == edits < MaxEdits /\ edits' = edits + 1 /\ (EditMat \/ EditNumber)
Spec == Init /\ [][Edit]_<<c, edits>>

\* a call without a change fits
Fits == edits = 0 => Accepts(c)
---------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + 3 * Sum(Tail(s))
Hash == Sum(<<c.begin, c.end, c.band, c.P, c.Q, c.f>> \o [i \in 1..Len(c.mats) |-> Sum(<<c.mats[i].m, c.mats[i].n, c.mats[i].tr, c.mats[i].tc, c.mats[i].kr, c.mats[i].kc, c.mats[i].g>>)])
\* a local call of permute on parts of distributed matrices, and blocks too small for a band, are left out
\* the number of tiles of the scaling factors is asked for, not their shape
\* what the other processes think only matters when the call is made
Skip == \/ c.f = Perm /\ c.dist = 0 /\ c.mats[2].g = c.mats[3].g /\ c.mats[2].g # 0
        \/ c.f = MaxNorm /\ Empty(c.mats[1])
        \/ c.f = BtR2B /\ Accepts(c) /\ LET x == c.mats[3] IN ~(x.n = 1 /\ x.tr = c.mats[2].tr /\ x.tc = 1 /\ x.m = MaxOf(0, c.mats[2].m - c.band - 1))
        \/ c.f = BtR2B /\ c.dist = 1 /\ Accepts(c) /\ \E r \in 0..(c.P * c.Q - 1) : ~Accepts([c EXCEPT !.rank = r])
Flat(x) == <<x.m, x.n, x.tr, x.tc, x.kr, x.kc, x.g>>
RECURSIVE FlatAll(_)
FlatAll(s) == IF s = <<>> THEN <<>> ELSE Flat(Head(s)) \o FlatAll(Tail(s))
Emit == (~Skip /\ (edits < 2 \/ (Hash % Thin) = 0)) =>
  PrintT(<<"K", c.f, c.dist, c.P, c.Q, c.rank, c.side, c.op, c.uplo, c.begin, c.end, c.band, IF Accepts(c) THEN 1 ELSE 0, Len(c.mats)>> \o FlatAll(c.mats))
=============================================================================
