------------------------------ MODULE TileKernels ------------------------------
(* The kernels that work on the tiles of a matrix.                                           *)
(*                                                                                           *)
(* State: one block of memory, of which the operands of a kernel are rectangles.  A call     *)
(* prepares its operands where a kernel asks for them to be something (triangular with an    *)
(* inverse over the Gaussian integers, positive definite, ...), and then changes what the    *)
(* kernel is defined to change - the rectangle of its result, or a triangle of it - and      *)
(* nothing else; operands that do not fit together stop the call.  All entries are Gaussian  *)
(* integers, small enough that no element type of the library rounds.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Seeds, Depth, DMax, Ops

VARIABLES h, cfg, mem, last, calls
vars == <<h, cfg, mem, last, calls>>

Rows == 10
Strip == 6          \* columns for each of the three operands
Cols == 3 * Strip

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Hash(k) == Mix(h, k)
Greatest(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Least(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

Zero == <<0, 0>>
One == <<1, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Real(a) == <<a[1], 0>>
Unit4 == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
Modulus(a) == IF a[2] = 0 THEN Abs(a[1]) ELSE Abs(a[2])   \* of entries on an axis
Mk(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN Zero ELSE Add(Sum(f, n - 1), f[n])
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE ISum(f, n - 1) + f[n]
Prod(A, B, m, n, k) == Mk(m, n, LAMBDA i, j : Sum([l \in 1..k |-> Mul(A[i][l], B[l][j])], k))
\* op(A), of r rows and c columns; 0 as it is, 1 transposed, 2 transposed and conjugated
Op(o, A, r, c) == Mk(r, c, LAMBDA i, j : IF o = 0 THEN A[i][j] ELSE IF o = 1 THEN A[j][i] ELSE Conj(A[j][i]))
InTri(u, i, j) == IF u = 0 THEN i >= j ELSE j >= i        \* u: 0 lower, 1 upper
Tri(u, d, A, n) == Mk(n, n, LAMBDA i, j : IF i = j /\ d = 1 THEN One ELSE IF InTri(u, i, j) THEN A[i][j] ELSE Zero)
Herm(u, A, n) == Mk(n, n, LAMBDA i, j : IF i = j THEN Real(A[i][i]) ELSE IF InTri(u, i, j) THEN A[i][j] ELSE Conj(A[j][i]))
Plus(A, B, m, n) == Mk(m, n, LAMBDA i, j : Add(A[i][j], B[i][j]))
Scale(x, A, m, n) == Mk(m, n, LAMBDA i, j : Mul(x, A[i][j]))
\* 1 / x for a unit of the Gaussian integers
Inv1(x) == Conj(x)

\* X with L X = B, L a lower triangle with units on its diagonal
RECURSIVE Forward(_, _, _, _)
Forward(L, B, n, k) ==
  IF n = 0 THEN <<>>
  ELSE LET X == TLCEval(Forward(L, B, n - 1, k))
       IN  Append(X, TLCEval([j \in 1..k |-> Mul(Inv1(L[n][n]), Sub(B[n][j], Sum([l \in 1..(n - 1) |-> Mul(L[n][l], X[l][j])], n - 1)))]))
Flip(A, m, n) == Mk(m, n, LAMBDA i, j : A[m + 1 - i][n + 1 - j])
\* X with T X = B, T lower (u = 0) or upper (u = 1)
Solve(u, A, B, n, k) ==
  IF u = 0 THEN Forward(A, B, n, k)
  ELSE Flip(Forward(Flip(A, n, n), Mk(n, k, LAMBDA i, j : B[n + 1 - i][j]), n, k), n, k)
SolveRows(u, A, B, n, k) == LET X == Solve(u, A, B, n, k) IN IF u = 0 THEN X ELSE Mk(n, k, LAMBDA i, j : X[i][k + 1 - j])
Identity(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)

----------------------------------------------------------------------------
\* rectangles: <<first row, first column, rows, columns>>, counted from 0
Get(m, r) == Mk(r[3], r[4], LAMBDA i, j : m[r[1] + i][r[2] + j])
In(r, i, j) == i > r[1] /\ i <= r[1] + r[3] /\ j > r[2] /\ j <= r[2] + r[4]
Put(m, r, V) == Mk(Rows, Cols, LAMBDA i, j : IF In(r, i, j) THEN V[i - r[1]][j - r[2]] ELSE m[i][j])
RECURSIVE PutAll(_, _)
PutAll(m, ps) == IF ps = <<>> THEN m ELSE PutAll(Put(m, Head(ps)[1], Head(ps)[2]), Tail(ps))

Cplx == cfg.type >= 2
N(k, w) == (Hash(k) % (2 * w + 1)) - w
Scalar(k) == LET s == <<<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 1>>, <<1, -1>>, <<1, 0>>>> IN LET x == s[(Hash(k) % 7) + 1] IN IF Cplx THEN x ELSE Real(x)
RScalar(k) == Real(<<<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<1, 0>>>>[(Hash(k) % 5) + 1])
Small(k, w, i, j) == <<(Mix(Hash(k), i * 61 + j * 7) % (2 * w + 1)) - w, IF Cplx THEN (Mix(Hash(k), i * 17 + j * 101 + 5) % (2 * w + 1)) - w ELSE 0>>
UnitOf(k, i) == LET x == (<<<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>>>)[(Mix(Hash(k), i) % 4) + 1] IN IF Cplx THEN x ELSE IF x[1] = 0 THEN <<x[2], 0>> ELSE x
Axis(k, i, j) == LET x == Small(k, 9, i, j) IN IF Cplx /\ Mix(Hash(k), i * 3 + j * 5) % 2 = 0 THEN <<0, x[2]>> ELSE Real(x)

Anything(k, r) == Mk(r[3], r[4], LAMBDA i, j : Small(k, 3, i, j))
\* triangles with units, with ones, with ones and twos, and with zeros from row z on, on the diagonal
UnitDiag(k, r) == Mk(r[3], r[4], LAMBDA i, j : IF i = j THEN UnitOf(k, i) ELSE Small(k, 2, i, j))
OneDiag(k, r) == Mk(r[3], r[4], LAMBDA i, j : IF i = j THEN One ELSE Small(k, 2, i, j))
TwoDiag(k, r) == Mk(r[3], r[4], LAMBDA i, j : IF i = j THEN <<1 + (Mix(Hash(k), i) % 2), 0>> ELSE Small(k, 2, i, j))
RealDiag(k, r) == Mk(r[3], r[4], LAMBDA i, j : IF i = j THEN Real(Small(k, 3, i, j)) ELSE Small(k, 3, i, j))

\* operand s (1..3) of d rows and e columns; more, if the call is to be spoiled there
Bad == cfg.bad /\ Hash(3) % 4 = 0
Spoil(s) == IF Bad /\ Hash(4) % 5 = s - 1 THEN 1 + (Hash(5) % 3) ELSE 0
Rect(s, d, e) ==
  LET place == (s + Hash(6)) % 3
      r == d + (IF Spoil(s) \in {1, 3} THEN 1 ELSE 0)
      c == e + (IF Spoil(s) \in {2, 3} THEN 1 ELSE 0)
  IN <<Hash(10 + s) % (Rows - r + 1), place * Strip + (Hash(13 + s) % (Strip - c + 1)), r, c>>
D1 == Hash(20) % (DMax + 1)
D2 == Hash(21) % (DMax + 1)
D3 == Hash(22) % (DMax + 1)
F(k) == Hash(k) % 2
\* operands that have grown are made small again
Fresh(k, r) == IF F(k) = 0 \/ \E i \in 1..r[3] : \E j \in 1..r[4] : LET x == mem[r[1] + i][r[2] + j] IN Abs(x[1]) > 40 \/ Abs(x[2]) > 40
               THEN <<<<r, Anything(k, r)>>>> ELSE <<>>
Shape(r) == <<r[3], r[4]>>
Square(r) == r[3] = r[4]

\* what a call is: operands, flags, whether they fit, the preparations, and then a function of the prepared memory
\* outputs: <<rectangle, values>>; scalars; rectangles with contents which the kernel does not define (zero afterwards)
Call(op, fl, rs, fits, plants, outs, scal, loose) ==
  /\ last' = [op |-> op, flags |-> fl, rects |-> rs, fits |-> fits, before |-> PutAll(mem, plants), scal |-> scal]
  /\ mem' = (IF fits THEN PutAll(PutAll(PutAll(mem, plants), outs), [i \in 1..Len(loose) |-> <<loose[i], Mk(loose[i][3], loose[i][4], LAMBDA x, y : Zero)>>])
             ELSE PutAll(mem, plants))
  /\ LET RECURSIVE flat(_)
         flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o flat(Tail(s))
         col(V, r) == LET RECURSIVE go(_, _)
                          go(i, j) == IF j > r[4] THEN <<>> ELSE IF i > r[3] THEN go(1, j + 1) ELSE V[i][j] \o go(i + 1, j)
                      IN IF r[3] = 0 THEN <<>> ELSE go(1, 1)
         vals(ps) == flat([i \in 1..Len(ps) |-> ps[i][1] \o col(ps[i][2], ps[i][1])])
     IN calls' = Append(calls, <<op, Len(plants)>> \o vals(plants) \o <<Len(fl)>> \o fl \o <<Len(rs)>> \o flat(rs)
                               \o <<IF fits THEN 1 ELSE 0>>
                               \o (IF fits THEN <<Len(outs)>> \o vals(outs) \o <<Len(scal)>> \o scal \o <<Len(loose)>> \o flat(loose) ELSE <<0, 0, 0>>))

\* a triangle of the result replaces that of the rectangle
InTriangle(u, m, r, V) == Mk(r[3], r[4], LAMBDA i, j : IF InTri(u, i, j) THEN V[i][j] ELSE m[r[1] + i][r[2] + j])

Gemm ==
  LET oa == Hash(31) % 3 ob == Hash(32) % 3 al == Scalar(33) be == Scalar(34)
      a == Rect(1, IF oa = 0 THEN D1 ELSE D3, IF oa = 0 THEN D3 ELSE D1)
      b == Rect(2, IF ob = 0 THEN D3 ELSE D2, IF ob = 0 THEN D2 ELSE D3)
      c == Rect(3, D1, D2)
      m == IF oa = 0 THEN a[3] ELSE a[4] k == IF oa = 0 THEN a[4] ELSE a[3]
      k2 == IF ob = 0 THEN b[3] ELSE b[4] n == IF ob = 0 THEN b[4] ELSE b[3]
      fits == m = c[3] /\ n = c[4] /\ k = k2
      p == Fresh(35, a) \o Fresh(36, b) \o Fresh(37, c)
      M == PutAll(mem, p)
  IN  Call(1, <<oa, ob>> \o al \o be, <<a, b, c>>, fits, p,
           IF fits THEN <<<<c, Plus(Scale(al, Prod(Op(oa, Get(M, a), m, k), Op(ob, Get(M, b), k, n), m, n, k), m, n), Scale(be, Get(M, c), m, n), m, n)>>>> ELSE <<>>, <<>>, <<>>)
Hemm ==
  LET side == F(31) u == F(32) al == Scalar(33) be == Scalar(34)
      q == IF side = 0 THEN D1 ELSE D2
      odd == Bad /\ F(38) = 0   \* a rectangle which could be multiplied, but is not Hermitian
      a == IF odd THEN Rect(1, IF side = 0 THEN D1 ELSE D3, IF side = 0 THEN D3 ELSE D2) ELSE Rect(1, q, q)
      b == IF odd THEN Rect(2, IF side = 0 THEN D3 ELSE D1, IF side = 0 THEN D2 ELSE D3) ELSE Rect(2, D1, D2)
      c == Rect(3, D1, D2)
      fits == Square(a) /\ Shape(b) = Shape(c) /\ a[3] = (IF side = 0 THEN c[3] ELSE c[4])
      p == Fresh(35, a) \o Fresh(36, b) \o Fresh(37, c)
      M == PutAll(mem, p)
  IN  Call(2, <<side, u>> \o al \o be, <<a, b, c>>, fits, p,
           IF fits THEN LET A == Herm(u, Get(M, a), a[3]) B == Get(M, b)
                            P == IF side = 0 THEN Prod(A, B, c[3], c[4], c[3]) ELSE Prod(B, A, c[3], c[4], c[4])
                        IN <<<<c, Plus(Scale(al, P, c[3], c[4]), Scale(be, Get(M, c), c[3], c[4]), c[3], c[4])>>>> ELSE <<>>, <<>>, <<>>)
\* rank-k updates of a triangle; the diagonal stays real
Herk(two) ==
  LET u == F(31) t == IF Cplx THEN <<0, 2, 0, 2, 1>>[(Hash(32) % 5) + 1] ELSE <<0, 1, 2>>[(Hash(32) % 3) + 1]
      al == IF two THEN Scalar(33) ELSE RScalar(33) be == RScalar(34)
      a == Rect(1, IF t = 0 THEN D1 ELSE D3, IF t = 0 THEN D3 ELSE D1)
      b == Rect(2, IF t = 0 THEN D1 ELSE D3, IF t = 0 THEN D3 ELSE D1)
      c == Rect(3, D1, D1)
      n == IF t = 0 THEN a[3] ELSE a[4] k == IF t = 0 THEN a[4] ELSE a[3]
      fits == (~Cplx \/ t # 1) /\ Square(c) /\ c[3] = n /\ (two => Shape(a) = Shape(b))
      p == Fresh(35, a) \o (IF two THEN Fresh(36, b) ELSE <<>>) \o <<<<c, RealDiag(37, c)>>>>
      M == PutAll(mem, p)
  IN  Call(IF two THEN 3 ELSE 4, <<u, t>> \o al \o be, IF two THEN <<a, b, c>> ELSE <<a, c>>, fits, p,
           IF fits THEN LET A == Op(IF t = 0 THEN 0 ELSE 2, Get(M, a), n, k) B == IF two THEN Op(IF t = 0 THEN 0 ELSE 2, Get(M, b), n, k) ELSE A
                            P == Prod(A, Op(2, B, k, n), n, n, k)
                            Q == Prod(B, Op(2, A, k, n), n, n, k)
                            S == IF two THEN Plus(Scale(al, P, n, n), Scale(Conj(al), Q, n, n), n, n) ELSE Scale(al, P, n, n)
                        IN <<<<c, InTriangle(u, M, c, Plus(S, Scale(be, Get(M, c), n, n), n, n))>>>> ELSE <<>>, <<>>, <<>>)
\* products with and solves for a triangle; 5 in place, 6 to another tile, 7 solve
Triangle(op) ==
  LET side == F(30) u == F(31) t == Hash(32) % 3 d == F(33) al == Scalar(34)
      q == IF side = 0 THEN D1 ELSE D2
      a == Rect(1, q, q) b == Rect(2, D1, D2) c == IF op = 6 THEN Rect(3, D1, D2) ELSE b
      fits == Square(a) /\ Shape(b) = Shape(c) /\ a[3] = (IF side = 0 THEN c[3] ELSE c[4])
      p == (IF op = 7 THEN <<<<a, UnitDiag(35, a)>>>> ELSE Fresh(35, a)) \o (IF op = 7 THEN <<<<b, Anything(36, b)>>>> ELSE Fresh(36, b))
      M == PutAll(mem, p) n == a[3]
  IN  Call(op, <<side, u, t, d>> \o al, IF op = 6 THEN <<a, b, c>> ELSE <<a, b>>, fits, p,
           IF fits THEN LET A == Op(t, Tri(u, d, Get(M, a), n), n, n) B == Scale(al, Get(M, b), c[3], c[4])
                            v == IF t = 0 THEN u ELSE 1 - u   \* the triangle of op(A)
                        IN <<<<c, IF op # 7 THEN (IF side = 0 THEN Prod(A, B, c[3], c[4], n) ELSE Prod(B, A, c[3], c[4], n))
                                  ELSE IF side = 0 THEN SolveRows(v, A, B, c[3], c[4])
                                  ELSE Op(1, SolveRows(1 - v, Op(1, A, n, n), Op(1, B, c[4], c[3]), c[4], c[3]), c[3], c[4])>>>> ELSE <<>>, <<>>, <<>>)
AddTo ==
  LET al == Scalar(31) b == Rect(1, D1, D2) a == Rect(2, D1, D2) fits == Shape(a) = Shape(b)
      p == Fresh(35, a) \o Fresh(36, b) M == PutAll(mem, p)
  IN  Call(8, al, <<b, a>>, fits, p, IF fits THEN <<<<a, Plus(Scale(al, Get(M, b), a[3], a[4]), Get(M, a), a[3], a[4])>>>> ELSE <<>>, <<>>, <<>>)
Scaling ==
  LET be == Scalar(31) a == Rect(1, D1, D2) p == Fresh(35, a) M == PutAll(mem, p)
  IN  Call(9, be, <<a>>, TRUE, p, <<<<a, Scale(be, Get(M, a), a[3], a[4])>>>>, <<>>, <<>>)
Copy ==
  LET a == Rect(1, D1, D2) b == Rect(2, D1, D2) fits == Shape(a) = Shape(b)
  IN  Call(10, <<>>, <<a, b>>, fits, <<>>, IF fits THEN <<<<b, Get(mem, a)>>>> ELSE <<>>, <<>>, <<>>)
\* a region of a tile to a place in another one
Region ==
  LET a == Rect(1, D1, D2) b == Rect(2, D3, Hash(23) % (DMax + 1))
      out == Bad /\ Hash(4) % 2 = 0
      hi == (IF out THEN 1 ELSE 0) + Least(a[3], b[3]) wi == (IF out THEN 1 ELSE 0) + Least(a[4], b[4])
      r == Hash(31) % (hi + 1) c == Hash(32) % (wi + 1)
      ar == Hash(33) % (Greatest({0, a[3] - r}) + 1) ac == Hash(34) % (Greatest({0, a[4] - c}) + 1)
      br == Hash(35) % (Greatest({0, b[3] - r}) + 1) bc == Hash(36) % (Greatest({0, b[4] - c}) + 1)
      fits == ar + r <= a[3] /\ ac + c <= a[4] /\ br + r <= b[3] /\ bc + c <= b[4]
  IN  Call(11, <<r, c, ar, ac, br, bc>>, <<a, b>>, fits, <<>>,
           IF fits THEN <<<< <<b[1] + br, b[2] + bc, r, c>>, Get(mem, <<a[1] + ar, a[2] + ac, r, c>>)>>>> ELSE <<>>, <<>>, <<>>)
\* norms: 0 greatest modulus, 1 columns, 2 rows, 3 Frobenius (of two entries: 3 k and 4 k)
NormOf(w, A, m, n) ==
  IF w = 0 THEN Greatest({Modulus(A[i][j]) : i \in 1..m, j \in 1..n})
  ELSE IF w = 1 THEN Greatest({ISum([i \in 1..m |-> Modulus(A[i][j])], m) : j \in 1..n})
  ELSE Greatest({ISum([j \in 1..n |-> Modulus(A[i][j])], n) : i \in 1..m})
Norm ==
  LET w == Hash(31) % 4 a == Rect(1, D1, D2) m == a[3] n == a[4]
      k == 1 + (Hash(32) % 9)
      three == <<1 + (Hash(33) % Greatest({1, m})), 1 + (Hash(34) % Greatest({1, n}))>> four == <<1 + (Hash(35) % Greatest({1, m})), 1 + (Hash(36) % Greatest({1, n}))>>
      V == Mk(m, n, LAMBDA i, j : IF w < 3 THEN Axis(37, i, j)
                                   ELSE IF <<i, j>> = four THEN (IF Cplx /\ F(38) = 0 THEN <<0, -4 * k>> ELSE <<4 * k, 0>>)
                                   ELSE IF <<i, j>> = three THEN (IF Cplx /\ F(39) = 0 THEN <<0, 3 * k>> ELSE <<-3 * k, 0>>) ELSE Zero)
  IN  Call(12, <<w>>, <<a>>, TRUE, <<<<a, V>>>>, <<>>,
           <<IF w < 3 THEN NormOf(w, V, m, n) ELSE IF m = 0 \/ n = 0 THEN 0 ELSE IF three = four THEN 4 * k ELSE 5 * k>>, <<>>)
TriNorm ==
  LET w == Hash(31) % 3 u == F(32) d == F(33)
      a == Rect(1, IF u = 0 THEN Greatest({D1, D2}) ELSE Least(D1, D2), IF u = 0 THEN Least(D1, D2) ELSE Greatest({D1, D2}))
      m == a[3] n == a[4] fits == IF u = 0 THEN m >= n ELSE n >= m
      V == Mk(m, n, LAMBDA i, j : Axis(37, i, j))
      W == Mk(m, n, LAMBDA i, j : IF d = 1 /\ i = j THEN One ELSE IF InTri(u, i, j) THEN V[i][j] ELSE Zero)
  IN  Call(13, <<w, u, d>>, <<a>>, fits, <<<<a, V>>>>, <<>>, <<NormOf(w, W, m, n)>>, <<>>)
\* off-diagonal entries and diagonal set; u = 2: all of the tile
SetTo ==
  LET u == Hash(31) % 3 al == Scalar(32) be == Scalar(33) a == Rect(1, D1, D2)
  IN  Call(14, <<u>> \o al \o be, <<a>>, TRUE, <<>>,
           <<<<a, Mk(a[3], a[4], LAMBDA i, j : IF i = j THEN be ELSE IF u = 2 \/ InTri(u, i, j) THEN al ELSE mem[a[1] + i][a[2] + j])>>>>, <<>>, <<>>)
SetZero == LET a == Rect(1, D1, D2) IN Call(15, <<>>, <<a>>, TRUE, <<>>, <<<<a, Mk(a[3], a[4], LAMBDA i, j : Zero)>>>>, <<>>, <<>>)
\* L^H L or U U^H of a triangle with a real diagonal; 17 with a workspace
Assemble(op) ==
  LET u == F(31) a == Rect(1, D1, D1) w == Rect(2, D1 + (Hash(32) % 2), D1 + (Hash(33) % 2)) n == a[3]
      fits == Square(a) /\ (op = 17 => (w[3] >= n /\ w[4] >= n))
      p == <<<<a, RealDiag(35, a)>>>> M == PutAll(mem, p)
  IN  Call(op, <<u>>, IF op = 17 THEN <<a, w>> ELSE <<a>>, fits, p,
           IF fits THEN LET T == Tri(u, 0, Get(M, a), n) H == Op(2, T, n, n)
                        IN <<<<a, InTriangle(u, M, a, IF u = 0 THEN Prod(H, T, n, n, n) ELSE Prod(T, H, n, n, n))>>>> ELSE <<>>, <<>>,
           IF fits /\ op = 17 THEN << <<w[1], w[2], n, n>> >> ELSE <<>>)
\* inverse of a triangle; 19 with a workspace; 20 tells the first zero of the diagonal (the tile stays as it is then)
Invert(op) ==
  LET u == F(31) d == F(32) a == Rect(1, D1, D1) w == Rect(2, D1 + (Hash(33) % 2), D1 + (Hash(34) % 2)) n == a[3]
      z == IF op = 20 /\ F(36) = 0 THEN {i \in 1..n : Mix(Hash(37), i) % 3 = 0} ELSE {}
      fits == Square(a) /\ ((op = 19 /\ n > (IF d = 1 THEN 1 ELSE 0)) => (w[3] >= n /\ w[4] >= n))
      V == UnitDiag(35, a)
      p == <<<<a, Mk(a[3], a[4], LAMBDA i, j : IF i = j /\ i \in z THEN Zero ELSE V[i][j])>>>> M == PutAll(mem, p)
      info == IF d = 0 /\ z # {} THEN CHOOSE i \in z : \A j \in z : i <= j ELSE 0
  IN  Call(op, <<u, d>>, IF op = 19 THEN <<a, w>> ELSE <<a>>, fits, p,
           IF fits /\ info = 0 THEN LET X == SolveRows(u, Tri(u, d, Get(M, a), n), Identity(n), n, n)
                        IN <<<<a, Mk(n, n, LAMBDA i, j : IF InTri(u, i, j) /\ (d = 0 \/ i # j) THEN X[i][j] ELSE Get(M, a)[i][j])>>>> ELSE <<>>,
           IF op = 20 THEN <<info>> ELSE <<>>,
           IF fits /\ op = 19 THEN << <<w[1], w[2], Least(n, w[3]), Least(n, w[4])>> >> ELSE <<>>)
\* Cholesky factor; 22 tells the first leading block that is not positive definite
Factor(op) ==
  LET u == F(31) a == Rect(1, D1, D1) n == a[3] fits == Square(a)
      L0 == Tri(0, 0, TwoDiag(35, <<0, 0, D1 + 1, D1 + 1>>), D1 + 1)
      bad == IF op = 22 /\ F(36) = 0 /\ n > 0 THEN 1 + (Hash(37) % n) ELSE 0
      sgn(l) == IF l = bad THEN <<-1, 0>> ELSE One
      G == Mk(a[3], a[4], LAMBDA i, j : LET k == Greatest({a[3], a[4]}) IN IF k > D1 + 1 THEN Zero ELSE Sum([l \in 1..k |-> Mul(sgn(l), Mul(L0[i][l], Conj(L0[j][l])))], k))
      junk == Anything(38, a)
      p == <<<<a, Mk(a[3], a[4], LAMBDA i, j : IF InTri(u, i, j) THEN G[i][j] ELSE junk[i][j])>>>> M == PutAll(mem, p)
  IN  Call(op, <<u>>, <<a>>, fits, p,
           IF fits /\ bad = 0 THEN <<<<a, InTriangle(u, M, a, IF u = 0 THEN L0 ELSE Op(2, L0, n, n))>>>> ELSE <<>>,
           IF op = 22 THEN <<bad>> ELSE <<>>, IF fits /\ bad > 0 THEN <<a>> ELSE <<>>)
\* generalised to standard form
Standard ==
  LET it == 1 + (Hash(30) % 3) u == F(31) a == Rect(1, D1, D1) b == Rect(2, D1, D1) n == a[3]
      fits == Square(a) /\ Square(b) /\ a[3] = b[3]
      p == <<<<a, RealDiag(35, a)>>, <<b, IF it = 1 THEN OneDiag(36, b) ELSE TwoDiag(36, b)>>>> M == PutAll(mem, p)
  IN  Call(23, <<it, u>>, <<a, b>>, fits, p,
           IF fits THEN LET A == Herm(u, Get(M, a), n) T == Tri(u, 0, Get(M, b), n) H == Op(2, T, n, n)
                            L == IF it = 1 THEN SolveRows(0, IF u = 0 THEN T ELSE H, Identity(n), n, n) ELSE IF u = 0 THEN H ELSE T
                        IN <<<<a, InTriangle(u, M, a, Prod(Prod(L, A, n, n, n), Op(2, L, n, n), n, n, n))>>>> ELSE <<>>, <<>>, <<>>)
Column ==
  LET al == Scalar(31) a == Rect(1, D1, D2) c == (Hash(32) % (a[4] + (IF Bad THEN 3 ELSE 0) + (IF a[4] = 0 THEN 1 ELSE 0))) - (IF Bad THEN 1 ELSE 0)
      fits == c >= 0 /\ c < a[4] p == Fresh(35, a) M == PutAll(mem, p)
  IN  Call(24, <<c>> \o al, <<a>>, fits, p,
           IF fits THEN <<<<a, Mk(a[3], a[4], LAMBDA i, j : IF j = c + 1 THEN Mul(al, M[a[1] + i][a[2] + j]) ELSE M[a[1] + i][a[2] + j])>>>> ELSE <<>>, <<>>, <<>>)
\* eigenvalues of a diagonal matrix of different entries, and its eigenvectors: the columns of the identity in their order
Diagonal ==
  LET a == Rect(1, D1, 2) b == Rect(2, D1, D1) n == a[3]
      fits == Square(b) /\ a[4] = 2 /\ a[3] = b[3]
      e(i) == (Hash(31) % 7) - 4 + (IF i % 2 = 0 THEN 3 * i ELSE (-2 - F(32)) * i) + (IF i % 3 = F(33) THEN 20 ELSE 0)
      p == <<<<a, Mk(a[3], a[4], LAMBDA i, j : IF j = 1 THEN <<e(i), 0>> ELSE Zero)>>>>
      rank(i) == Cardinality({l \in 1..n : e(l) < e(i) \/ (e(l) = e(i) /\ l < i)}) + 1
      from(k) == CHOOSE i \in 1..n : rank(i) = k
  IN  Call(25, <<>>, <<a, b>>, fits, p,
           IF fits THEN <<<< <<a[1], a[2], n, 1>>, Mk(n, 1, LAMBDA i, j : <<e(from(i)), 0>>)>>, <<b, Mk(n, n, LAMBDA i, j : IF i = from(j) THEN One ELSE Zero)>>>> ELSE <<>>, <<>>,
           IF fits THEN << <<a[1], a[2] + 1, n, 1>> >> ELSE <<>>)

----------------------------------------------------------------------------
InitOne(s) ==
  /\ cfg = [seed |-> s, type |-> Mix(s, 5) % 4, bad |-> Mix(s, 6) % 2 = 0]
  /\ h = Mix(s, 77) /\ calls = <<>>
  /\ mem = Mk(Rows, Cols, LAMBDA i, j : Zero)
  /\ last = [op |-> 0]
Init == \E s \in Seeds : InitOne(s)

Act ==
  LET op == Ops[(Hash(80) % Len(Ops)) + 1]
  IN  CASE op = 1 -> Gemm [] op = 2 -> Hemm [] op = 3 -> Herk(TRUE) [] op = 4 -> Herk(FALSE)
        [] op \in 5..7 -> Triangle(op) [] op = 8 -> AddTo [] op = 9 -> Scaling [] op = 10 -> Copy [] op = 11 -> Region
        [] op = 12 -> Norm [] op = 13 -> TriNorm [] op = 14 -> SetTo [] op = 15 -> SetZero
        [] op \in 16..17 -> Assemble(op) [] op \in 18..20 -> Invert(op) [] op \in 21..22 -> Factor(op)
        [] op = 23 -> Standard [] op = 24 -> Column
        [] OTHER -> IF Cplx THEN Gemm ELSE Diagonal
Next == /\ Len(calls) < Depth
        /\ Act
        /\ h' = Mix(h, 5) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the defining equations, on what the call left in memory
Before(i) == Get(last.before, last.rects[i])
After(i) == Get(mem, last.rects[i])
Equations ==
  (last.op # 0 /\ last.fits) =>
    LET r == last.rects f == last.flags IN
    CASE last.op = 7 ->
           LET n == r[1][3] A == Op(f[3], Tri(f[2], f[4], Before(1), n), n, n) X == After(2) m == r[2][3] k == r[2][4]
           IN  (IF f[1] = 0 THEN Prod(A, X, m, k, n) ELSE Prod(X, A, m, k, n)) = Scale(<<f[5], f[6]>>, Before(2), m, k)
      [] last.op = 6 -> After(2) = Before(2)
      [] last.op \in {18, 19} \/ (last.op = 20 /\ last.scal = <<0>>) ->
           LET n == r[1][3] IN Prod(Tri(f[1], f[2], Before(1), n), Tri(f[1], f[2], After(1), n), n, n, n) = Identity(n)
      [] last.op = 21 \/ (last.op = 22 /\ last.scal = <<0>>) ->
           LET n == r[1][3] T == Tri(f[1], 0, After(1), n) H == Op(2, T, n, n)
           IN (IF f[1] = 0 THEN Prod(T, H, n, n, n) ELSE Prod(H, T, n, n, n)) = Herm(f[1], Before(1), n)
      [] last.op = 23 ->
           LET n == r[1][3] T == Tri(f[2], 0, Before(2), n) H == Op(2, T, n, n) A == Herm(f[2], Before(1), n) C == Herm(f[2], After(1), n)
           IN IF f[1] = 1 THEN (IF f[2] = 0 THEN Prod(Prod(T, C, n, n, n), H, n, n, n) ELSE Prod(Prod(H, C, n, n, n), T, n, n, n)) = A
              ELSE C = (IF f[2] = 0 THEN Prod(Prod(H, A, n, n, n), T, n, n, n) ELSE Prod(Prod(T, A, n, n, n), H, n, n, n))
      [] OTHER -> TRUE
\* outside of the operands nothing changes, and a refused call changes nothing
Local == last.op # 0 =>
  /\ ~last.fits => mem = last.before
  /\ \A i \in 1..Rows : \A j \in 1..Cols : (\A k \in 1..Len(last.rects) : ~In(last.rects[k], i, j)) => mem[i][j] = last.before[i][j]
\* small enough for all element types
Exact == \A i \in 1..Rows : \A j \in 1..Cols : Abs(mem[i][j][1]) < 4000000 /\ Abs(mem[i][j][2]) < 4000000

RECURSIVE FlatCalls(_)
FlatCalls(c) == IF c = <<>> THEN <<>> ELSE <<Len(c[1])>> \o c[1] \o FlatCalls(Tail(c))
Emit == Len(calls) = Depth => PrintT(<<"K", cfg.seed, cfg.type, Rows, Cols, Len(calls)>> \o FlatCalls(calls))
============================================================================
