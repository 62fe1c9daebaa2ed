------------------------------- MODULE ExactAlgebra -------------------------------
(* Exact linear algebra as a state machine.                                        *)
(*                                                                                 *)
(* The state is a file of matrix registers whose entries are Gaussian dyadic       *)
(* numbers (m / 2^e, m a matrix of Gaussian integers).  A transition is a call of  *)
(* one of the library's algorithms; its effect is the mathematical definition of   *)
(* the algorithm, with everything outside the documented result left unchanged.    *)
(* As no rounding can occur on these numbers, the library has to agree with the    *)
(* model bit for bit, whatever the tile sizes, process grid and schedule.          *)
(*                                                                                 *)
(* A behaviour is determined by its seed: sizes, tile sizes, grid, register        *)
(* contents and the sequence of calls are functions of it.                         *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Seeds,      \* set of seeds
          Table,      \* sequence of call codes to pick from
          FirstCall,  \* the first call of every behaviour (0: from the table)
          Depth,      \* number of calls
          NMax,       \* largest order
          Grids,      \* sequence of <<P, Q>>; <<0, 0>> stands for a local (not distributed) matrix
          KBs         \* sequence of tiles per block

VARIABLES h,          \* hash state
          cfg,        \* sizes, distribution
          reg,        \* register file: 1, 2: n x n; 3, 4: n x m; 5, 6: m x n
          fac,        \* hidden Cholesky factors of registers 1 and 2
          init, tries, \* initial register file
          calls       \* calls made

vars == <<h, cfg, reg, fac, init, tries, calls>>

----------------------------------------------------------------------------
(* Hashing: the source of all choices *)
Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Hash(k) == Mix(h, k)
Pick(s, k) == s[(Hash(k) % Len(s)) + 1]
MixIJ(a, i, j) == Mix(Mix(a, i * 61 + 7), j * 89 + 3)

----------------------------------------------------------------------------
(* Gaussian integers and matrices *)
Zero == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
Conj(a) == <<a[1], -a[2]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
CAbs(a) == Abs(a[1]) + Abs(a[2])

\* exact division of Gaussian integers
CDiv(a, b) == LET q == CMul(a, Conj(b)) d == b[1] * b[1] + b[2] * b[2] IN <<q[1] \div d, q[2] \div d>>

RECURSIVE Dot(_, _, _)
Dot(r, c, k) == IF k = 0 THEN Zero ELSE CAdd(CMul(r[k], c[k]), Dot(r, c, k - 1))

Rows(A) == Len(A)
Mk(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
Trans(A, r, c) == Mk(c, r, LAMBDA i, j : A[j][i])
ConjT(A, r, c) == Mk(c, r, LAMBDA i, j : Conj(A[j][i]))
\* A: r x k, B: k x c
Mul(A, B, r, k, c) == LET BT == Trans(B, k, c) IN Mk(r, c, LAMBDA i, j : Dot(A[i], BT[j], k))
Id(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN <<1, 0>> ELSE Zero)

RECURSIVE MaxOver(_, _)
MaxOver(s, k) == IF k = 0 THEN 0 ELSE Max(s[k], MaxOver(s, k - 1))
MaxAbs(A, r, c) == MaxOver(TLCEval([i \in 1..r |-> MaxOver(TLCEval([j \in 1..c |-> CAbs(A[i][j])]), c)]), r)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

(* A scaled matrix: value m / 2^e *)
Sc(m, e) == [m |-> m, e |-> e]
RECURSIVE Reduce(_, _, _)
Reduce(S, r, c) ==
  IF S.e > 0 /\ \A i \in 1..r : \A j \in 1..c : (S.m[i][j][1] % 2) = 0 /\ (S.m[i][j][2] % 2) = 0
  THEN Reduce(Sc(Mk(r, c, LAMBDA i, j : <<S.m[i][j][1] \div 2, S.m[i][j][2] \div 2>>), S.e - 1), r, c)
  ELSE S

Cap == 262144           \* entries stay below 2^18, exponents below 2^10
Fits(S, r, c) == S.e <= 10 /\ MaxAbs(S.m, r, c) < Cap

----------------------------------------------------------------------------
(* Triangles *)
InTri(uplo, i, j) == IF uplo = "L" THEN i >= j ELSE i <= j
TriOf(A, n, uplo, diag) ==
  Mk(n, n, LAMBDA i, j : IF i = j THEN (IF diag = "U" THEN <<1, 0>> ELSE A[i][i])
                         ELSE IF InTri(uplo, i, j) THEN A[i][j] ELSE Zero)
HermOf(A, n, uplo) ==
  Mk(n, n, LAMBDA i, j : IF InTri(uplo, i, j) THEN A[i][j] ELSE Conj(A[j][i]))
Op(op, A, r, c) == CASE op = "N" -> A [] op = "T" -> Trans(A, r, c) [] op = "C" -> ConjT(A, r, c)
\* result R in the triangle, everything else as before
Merge(A, R, n, uplo) == Mk(n, n, LAMBDA i, j : IF InTri(uplo, i, j) THEN R[i][j] ELSE A[i][j])

\* Is every diagonal entry a unit times a power of two (real and positive: `pos`)?
PowersOfTwo == {1, 2, 4, 8, 16}
DiagOk(A, n) == \A i \in 1..n : (A[i][i][1] = 0 /\ Abs(A[i][i][2]) \in PowersOfTwo) \/ (A[i][i][2] = 0 /\ Abs(A[i][i][1]) \in PowersOfTwo)
DiagPos(A, n) == \A i \in 1..n : A[i][i][2] = 0 /\ A[i][i][1] \in PowersOfTwo
DiagReal(A, n) == \A i \in 1..n : A[i][i][2] = 0
RECURSIVE DiagLog(_, _)
DiagLog(A, k) == IF k = 0 THEN 0 ELSE
  LET a == CAbs(A[k][k]) IN DiagLog(A, k - 1) + (CASE a = 1 -> 0 [] a = 2 -> 1 [] a = 4 -> 2 [] a = 8 -> 3 [] a = 16 -> 4)

(* Solution of M X = R, M triangular of order n (lower: `low`), R with c columns; all exact *)
SolveRow(M, R, X, i, js, c) ==
  LET F[k \in 0..Len(js)] == 0 IN
  TLCEval([j \in 1..c |->
     LET RECURSIVE S(_)
         S(k) == IF k = 0 THEN R[i][j] ELSE LET p == CMul(M[i][js[k]], X[js[k]][j]) IN CAdd(<<-p[1], -p[2]>>, S(k - 1))
     IN CDiv(S(Len(js)), M[i][i])])
RECURSIVE Fwd(_, _, _, _, _, _)
Fwd(M, R, n, c, i, X) ==
  IF i > n THEN X
  ELSE Fwd(M, R, n, c, i + 1, TLCEval([X EXCEPT ![i] = SolveRow(M, R, X, i, [k \in 1..(i - 1) |-> k], c)]))
RECURSIVE Bwd(_, _, _, _, _, _)
Bwd(M, R, n, c, i, X) ==
  IF i < 1 THEN X
  ELSE Bwd(M, R, n, c, i - 1, TLCEval([X EXCEPT ![i] = SolveRow(M, R, X, i, [k \in 1..(n - i) |-> n + 1 - k], c)]))
Blank(n, c) == Mk(n, c, LAMBDA i, j : Zero)
Solve(M, R, n, c, low) == IF low THEN Fwd(M, R, n, c, 1, Blank(n, c)) ELSE Bwd(M, R, n, c, n, Blank(n, c))

(* Saturating bound of the entries of the solution, r the largest entry of the right hand side *)
RECURSIVE BoundSum(_, _, _, _, _)
BoundSum(M, b, i, k, n) ==
  IF k > n THEN 0
  ELSE Min(268435456, (IF k = i THEN 0 ELSE Min(512, CAbs(M[i][k])) * b[k]) + BoundSum(M, b, i, k + 1, n))
RECURSIVE BoundF(_, _, _, _, _, _)
BoundF(M, r, n, i, b, low) ==
  IF i > n \/ i < 1 THEN MaxOver(b, n)
  ELSE BoundF(M, r, n, IF low THEN i + 1 ELSE i - 1, [b EXCEPT ![i] = Min(Cap, r + BoundSum(M, b, i, 1, n))], low)
SolveBound(M, r, n, low) == IF n = 0 THEN 0 ELSE BoundF(M, r, n, IF low THEN 1 ELSE n, [i \in 1..n |-> 0], low)

----------------------------------------------------------------------------
(* Configuration and register contents *)
RowsOf(x, c) == IF x \in {5, 6} THEN c.m ELSE c.n
ColsOf(x, c) == IF x \in {3, 4} THEN c.m ELSE c.n

Small(a, cplx) == IF cplx THEN <<(a % 5) - 2, ((a \div 5) % 5) - 2>> ELSE <<(a % 7) - 3, 0>>
Tiny(a, cplx) == CASE (a % 9) \in 0..3 -> Zero
                   [] (a % 9) \in {4, 5} -> <<1, 0>>
                   [] (a % 9) \in {6, 7} -> <<-1, 0>>
                   [] OTHER -> IF cplx THEN <<0, 1 - 2 * ((a \div 9) % 2)>> ELSE <<2, 0>>
Units(cplx) == IF cplx THEN <<<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>>> ELSE <<<<1, 0>>, <<-1, 0>>>>

GenM(s, r, c, cplx) == Mk(r, c, LAMBDA i, j : Small(MixIJ(s, i, j), cplx))
\* both triangles usable as triangular matrices; at most two diagonal entries of modulus two
TriM(s, n, cplx) ==
  Mk(n, n, LAMBDA i, j : IF i = j THEN LET u == Units(cplx)[(MixIJ(s, i, j) % Len(Units(cplx))) + 1]
                                       IN IF i \in {(s % (n + 2)), ((s \div 7) % (n + 2))} THEN CScale(2, u) ELSE u
                         ELSE Tiny(MixIJ(s, i, j), cplx))
\* lower triangular factor with positive diagonal
FacM(s, n, cplx) ==
  Mk(n, n, LAMBDA i, j : IF i = j THEN <<(<<1, 1, 2, 1, 4, 1, 2>>)[(MixIJ(s, i, j) % 7) + 1], 0>>
                         ELSE IF i > j THEN (IF MixIJ(s, i, j) % 3 = 0 THEN Small(MixIJ(s, i, j), cplx) ELSE Tiny(MixIJ(s, i, j), cplx)) ELSE Zero)
\* Hermitian matrix L L^H (or U^H U with U = L^H) in the given triangle, noise in the other
HpdM(s, n, cplx, uplo) ==
  LET L == FacM(s, n, cplx)
      A == Mul(L, ConjT(L, n, n), n, n, n)
  IN  Mk(n, n, LAMBDA i, j : IF InTri(uplo, i, j) THEN A[i][j] ELSE Small(MixIJ(s + 5, i, j), cplx))
\* factor in the triangle, noise in the other
FacN(s, n, cplx, uplo) ==
  LET L == FacM(s, n, cplx)
      F == IF uplo = "L" THEN L ELSE ConjT(L, n, n)
  IN  Mk(n, n, LAMBDA i, j : IF InTri(uplo, i, j) THEN F[i][j] ELSE Small(MixIJ(s + 5, i, j), cplx))
HermM(s, n, cplx) == Mk(n, n, LAMBDA i, j : IF i = j THEN <<(MixIJ(s, i, j) % 7) - 3, 0>> ELSE Small(MixIJ(s, i, j), cplx))

NoFac == [uplo |-> "N", s |-> 0]

\* the content wanted by the first call for registers 1 and 2
KindFor(x, code, k) ==
  CASE code = 1 -> "hpd"
    [] code \in {2, 3} -> "tri"
    [] code = 6 -> "tri"
    [] code = 7 -> "fac"
    [] code = 8 -> IF x = 1 THEN "herm" ELSE "fac"
    [] code = 5 -> "herm"
    [] OTHER -> (<<"hpd", "tri", "fac", "herm", "gen">>)[k + 1]

InitOne(s) ==
  LET c == Mix(s, 1)
      n == Mix(s, 2) % (NMax + 1)
      m == Mix(s, 3) % (NMax + 1)
      g == Grids[(Mix(s, 4) % Len(Grids)) + 1]
      P == Max(1, g[1]) Q == Max(1, g[2])
      cplx == (Mix(s, 5) % 2) = 1
      up(x) == IF (Mix(s, 20 + x) % 2) = 0 THEN "L" ELSE "U"
      C == [seed |-> s, n |-> n, m |-> m, nb |-> 1 + (Mix(s, 6) % Max(1, Min(5, n + 1))), mb |-> 1 + (Mix(s, 7) % Max(1, Min(5, m + 1))),
            kb |-> KBs[(Mix(s, 8) % Len(KBs)) + 1], P |-> P, Q |-> Q, sr |-> Mix(s, 9) % P, sc |-> Mix(s, 10) % Q,
            dist |-> g /= <<0, 0>>, cplx |-> cplx]
      kind(x) == IF x > 2 THEN "gen" ELSE KindFor(x, FirstCall, Mix(s, 30 + x) % 5)
      \* for the generalised problem both registers use the same triangle
      upl(x) == IF FirstCall = 8 THEN up(1) ELSE up(x)
      content(x) == LET r == Mix(s, 40 + x) IN
         CASE kind(x) = "gen" -> GenM(r, RowsOf(x, C), ColsOf(x, C), cplx)
           [] kind(x) = "tri" -> TriM(r, n, cplx)
           [] kind(x) = "hpd" -> HpdM(r, n, cplx, upl(x))
           [] kind(x) = "fac" -> FacN(r, n, cplx, upl(x))
           [] kind(x) = "herm" -> HermM(r, n, cplx)
      R == TLCEval([x \in 1..6 |-> Sc(content(x), 0)])
  IN  /\ cfg = C
      /\ reg = R
      /\ init = R
      /\ fac = TLCEval([x \in 1..2 |-> IF kind(x) \in {"hpd", "fac"} THEN [kind |-> kind(x), uplo |-> upl(x), L |-> FacM(Mix(s, 40 + x), n, cplx)]
                                       ELSE [kind |-> "none", uplo |-> "N", L |-> <<>>]])
      /\ tries = 0
      /\ h = Mix(s, 77)
      /\ calls = <<>>

Init == \E s \in Seeds : InitOne(s)

----------------------------------------------------------------------------
(* The calls.  Each is enabled when its documented preconditions hold and its result is representable. *)
N == cfg.n
Alphas == IF cfg.cplx THEN <<<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 1>>, <<1, -1>>, <<0, -2>>, <<1, 0>>, <<0, 0>>>>
                      ELSE <<<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-3, 0>>, <<1, 0>>, <<3, 0>>, <<1, 0>>, <<0, 0>>>>
TrsmAlphas == IF cfg.cplx THEN Alphas ELSE <<<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-2, 0>>, <<1, 0>>, <<4, 0>>, <<1, 0>>, <<0, 0>>>>
ToInt(f) == IF f \in {"L", "N"} THEN 0 ELSE IF f \in {"U", "R", "T"} THEN 1 ELSE 2

Record(code, x, y, z, side, uplo, op, diag, alpha, beta, sub) ==
  calls' = Append(calls, <<code, x, y, z, ToInt(side), ToInt(uplo), ToInt(op), ToInt(diag), alpha[1], alpha[2], beta[1], beta[2]>> \o sub)
NoSub == <<0, 0, 0, 0, 0, 0, 0>>
One == <<1, 0>>

Put(x, S) == /\ reg' = TLCEval([reg EXCEPT ![x] = Reduce(S, RowsOf(x, cfg), ColsOf(x, cfg))])
             /\ fac' = IF x <= 2 THEN [fac EXCEPT ![x] = [kind |-> "none", uplo |-> "N", L |-> <<>>]] ELSE fac
             /\ UNCHANGED <<cfg, init, tries>>

\* A = L L^H: register x holds the Hermitian matrix in the triangle of its hidden factor
Chol(x) ==
  /\ cfg.kb = 1
  /\ fac[x].kind = "hpd"
  /\ LET u == fac[x].uplo L == fac[x].L
         F == IF u = "L" THEN L ELSE ConjT(L, N, N)
     IN /\ Assert(Mul(L, ConjT(L, N, N), N, N, N) = HermOf(reg[x].m, N, u), "not the factor")
        /\ Record(1, x, 0, 0, "L", u, "N", "N", One, One, NoSub)
        /\ reg' = TLCEval([reg EXCEPT ![x] = Sc(Merge(reg[x].m, F, N, u), 0)])
        /\ fac' = [fac EXCEPT ![x].kind = "fac"]
        /\ UNCHANGED <<cfg, init, tries>>

\* the sub-matrix of a register: rows [i0, i0 + r), columns [j0, j0 + c) (from zero)
Sub(A, i0, j0, r, c) == Mk(r, c, LAMBDA i, j : A[i0 + i][j0 + j])
Paste(A, R, i0, j0, r, c, rows, cols) ==
  Mk(rows, cols, LAMBDA i, j : IF i > i0 /\ i <= i0 + r /\ j > j0 /\ j <= j0 + c THEN R[i - i0][j - j0] ELSE A[i][j])

\* op(A) X = alpha B or X op(A) = alpha B, X overwriting columns (rows) [o, o + w) of B
Trsm(x, y, side, uplo, op, diag, alpha, o, w) ==
  LET A == reg[x].m
      B == reg[y]
      M0 == Op(op, TriOf(A, N, uplo, diag), N, N)
      M == IF side = "L" THEN M0 ELSE Trans(M0, N, N)
      low == (uplo = "L") = ((op = "N") = (side = "L"))
      R0 == IF side = "L" THEN Sub(B.m, 0, o, N, w) ELSE Trans(Sub(B.m, o, 0, w, N), w, N)
      dl == IF diag = "U" THEN 0 ELSE DiagLog(A, N)
  IN /\ cfg.kb = 1
     /\ reg[x].e = 0
     /\ diag = "U" \/ DiagOk(A, N)
     /\ MaxAbs(A, N, N) <= 512
     /\ dl + B.e <= 10
     /\ MaxAbs(B.m, RowsOf(y, cfg), ColsOf(y, cfg)) * CAbs(alpha) * Pow2(dl) < Cap
     /\ SolveBound(M, MaxAbs(R0, N, w) * CAbs(alpha) * Pow2(dl), N, low) < Cap
     /\ LET R == Mk(N, w, LAMBDA i, j : CScale(Pow2(dl), CMul(alpha, R0[i][j])))
            X == Solve(M, R, N, w, low)
            XT == IF side = "L" THEN X ELSE Trans(X, N, w)
            rows == RowsOf(y, cfg) cols == ColsOf(y, cfg)
            B2 == Mk(rows, cols, LAMBDA i, j : CScale(Pow2(dl), B.m[i][j]))
        IN /\ Assert(Mul(M, X, N, N, w) = R, "not the solution")
           /\ Put(y, Sc(IF side = "L" THEN Paste(B2, XT, 0, o, N, w, rows, cols) ELSE Paste(B2, XT, o, 0, w, N, rows, cols), B.e + dl))
           /\ Record(2, x, y, 0, side, uplo, op, diag, alpha, One, <<o, w, 0, 0, 0, 0, 0>>)

Trmm(x, y, side, uplo, op, diag, alpha) ==
  LET A == reg[x] B == reg[y]
      r == RowsOf(y, cfg) c == ColsOf(y, cfg)
      M == Op(op, TriOf(A.m, N, uplo, diag), N, N)
      \* a unit diagonal is one, whatever the scale
      M1 == IF diag = "U" THEN Mk(N, N, LAMBDA i, j : IF i = j THEN <<Pow2(A.e), 0>> ELSE M[i][j]) ELSE M
      nrm == Min(MaxAbs(M1, N, N), 32768)
  IN /\ cfg.kb = 1
     /\ ~cfg.dist \/ op = "N"
     /\ A.e + B.e <= 10
     /\ nrm < 8192
     /\ nrm * Min(8192, MaxAbs(B.m, r, c)) * 2 < 1000000000 \div Max(1, 4 * N)
     /\ MaxAbs(B.m, r, c) < 8192
     /\ LET P == IF side = "L" THEN Mul(M1, B.m, N, N, c) ELSE Mul(B.m, M1, r, N, N)
            R == Sc(Mk(r, c, LAMBDA i, j : CMul(alpha, P[i][j])), A.e + B.e)
        IN /\ Fits(R, r, c)
           /\ Put(y, R)
           /\ Record(3, x, y, 0, side, uplo, op, diag, alpha, One, NoSub)

\* result of beta C + alpha P, P with exponent pe
Combine(alpha, P, pe, beta, C, r, c) ==
  LET e == Max(pe, C.e) IN
  Sc(Mk(r, c, LAMBDA i, j : CAdd(CScale(Pow2(e - pe), CMul(alpha, P[i][j])), CScale(Pow2(e - C.e), CMul(beta, C.m[i][j])))), e)

\* C[i0.., j0..] = alpha A[i0.., ka..] B[kb.., j0..] + beta C[i0.., j0..], extents r, k, c
Gemm(x, y, z, alpha, beta, i0, j0, ka, kb, r, k, c) ==
  LET A == reg[x] B == reg[y] C == reg[z]
      rz == RowsOf(z, cfg) cz == ColsOf(z, cfg)
      na == MaxAbs(A.m, RowsOf(x, cfg), ColsOf(x, cfg)) nbb == MaxAbs(B.m, RowsOf(y, cfg), ColsOf(y, cfg)) nc == MaxAbs(C.m, rz, cz)
  IN /\ x /= z /\ y /= z
     /\ A.e + B.e <= 8 /\ C.e <= 8
     /\ na < 4096 /\ nbb < 4096 /\ nc < 4096
     /\ na * nbb < 1000000000 \div (Max(1, 8 * k) * Pow2(Max(0, C.e - A.e - B.e)))
     /\ nc * 4 < 500000000 \div Pow2(Max(0, A.e + B.e - C.e))
     /\ LET P == Mul(Sub(A.m, i0, ka, r, k), Sub(B.m, kb, j0, k, c), r, k, c)
            RR == Combine(alpha, P, A.e + B.e, beta, Sc(Sub(C.m, i0, j0, r, c), C.e), r, c)
            C2 == Mk(rz, cz, LAMBDA i, j : CScale(Pow2(RR.e - C.e), C.m[i][j]))
            R == Sc(Paste(C2, RR.m, i0, j0, r, c, rz, cz), RR.e)
        IN /\ Fits(R, rz, cz)
           /\ Put(z, R)
           /\ Record(4, x, y, z, "L", "L", "N", "N", alpha, beta, <<i0, j0, ka, kb, r, k, c>>)

Hemm(x, y, z, alpha, beta) ==
  LET A == reg[x] B == reg[y] C == reg[z]
      c == ColsOf(z, cfg)
      na == MaxAbs(A.m, N, N) nbb == MaxAbs(B.m, N, c) nc == MaxAbs(C.m, N, c)
  IN /\ cfg.kb = 1
     /\ x /= y /\ x /= z /\ y /= z
     /\ DiagReal(A.m, N)
     /\ A.e + B.e <= 8 /\ C.e <= 8
     /\ na < 4096 /\ nbb < 4096 /\ nc < 4096
     /\ na * nbb < 1000000000 \div (Max(1, 8 * N) * Pow2(Max(0, C.e - A.e - B.e)))
     /\ nc * 4 < 500000000 \div Pow2(Max(0, A.e + B.e - C.e))
     /\ LET P == Mul(HermOf(A.m, N, "L"), B.m, N, N, c)
            R == Combine(alpha, P, A.e + B.e, beta, C, N, c)
        IN /\ Fits(R, N, c)
           /\ Put(z, R)
           /\ Record(5, x, y, z, "L", "L", "N", "N", alpha, beta, NoSub)

\* inverse of a triangular matrix with exponent 0: result scaled by 2^dl
InvOf(M, dl, low) == Solve(M, Mk(N, N, LAMBDA i, j : IF i = j THEN <<Pow2(dl), 0>> ELSE Zero), N, N, low)
InvGuard(A, M, dl, low) == dl <= 8 /\ MaxAbs(A, N, N) <= 512 /\ SolveBound(M, Pow2(dl), N, low) < 16384

Trinv(x, uplo, diag) ==
  LET A == reg[x]
      M == TriOf(A.m, N, uplo, diag)
      low == uplo = "L"
      dl == IF diag = "U" THEN 0 ELSE DiagLog(A.m, N)
  IN /\ A.e = 0
     /\ diag = "U" \/ DiagOk(A.m, N)
     /\ InvGuard(A.m, M, dl, low)
     /\ LET X == InvOf(M, dl, low)
            A2 == Mk(N, N, LAMBDA i, j : CScale(Pow2(dl), A.m[i][j]))
            \* with a unit diagonal the stored diagonal is not referenced
            R == Mk(N, N, LAMBDA i, j : IF i = j /\ diag = "U" THEN A2[i][j] ELSE X[i][j])
        IN /\ Assert(Mul(M, X, N, N, N) = Mk(N, N, LAMBDA i, j : IF i = j THEN <<Pow2(dl), 0>> ELSE Zero), "not the inverse")
           /\ Put(x, Sc(Merge(A2, R, N, uplo), dl))
           /\ Record(6, x, 0, 0, "L", uplo, "N", diag, One, One, NoSub)

\* (L L^H)^-1 = L^-H L^-1, (U^H U)^-1 = U^-1 U^-H
CholInv(x, uplo) ==
  LET A == reg[x]
      M == TriOf(A.m, N, uplo, "N")
      low == uplo = "L"
      dl == DiagLog(A.m, N)
  IN /\ A.e = 0
     /\ DiagPos(A.m, N)
     /\ dl <= 4
     /\ InvGuard(A.m, M, dl, low)
     /\ LET X == InvOf(M, dl, low)
            XH == ConjT(X, N, N)
        IN /\ MaxAbs(X, N, N) < 3000
           /\ LET W == IF low THEN Mul(XH, X, N, N, N) ELSE Mul(X, XH, N, N, N)
                  A2 == Mk(N, N, LAMBDA i, j : CScale(Pow2(2 * dl), A.m[i][j]))
              IN /\ Put(x, Sc(Merge(A2, W, N, uplo), 2 * dl))
                 /\ Record(7, x, 0, 0, "L", uplo, "N", "N", One, One, NoSub)

\* L^-1 A L^-H or U^-H A U^-1
GenStd(x, y, uplo) ==
  LET A == reg[x]
      F == TriOf(reg[y].m, N, uplo, "N")
      M == IF uplo = "L" THEN F ELSE ConjT(F, N, N)
      dl == DiagLog(reg[y].m, N)
      na == MaxAbs(A.m, N, N)
  IN /\ cfg.kb = 1
     /\ x /= y
     /\ A.e = 0 /\ reg[y].e = 0
     /\ DiagPos(reg[y].m, N) /\ DiagReal(A.m, N)
     /\ dl <= 5
     /\ MaxAbs(reg[y].m, N, N) <= 512
     /\ na * Pow2(2 * dl) < Cap
     /\ LET b1 == SolveBound(M, na * Pow2(2 * dl), N, TRUE) IN
        /\ b1 < Cap
        /\ SolveBound(M, b1, N, TRUE) < Cap
     /\ LET H == HermOf(A.m, N, uplo)
            R == Mk(N, N, LAMBDA i, j : CScale(Pow2(2 * dl), H[i][j]))
            Y == Solve(M, R, N, N, TRUE)
            W == Solve(M, ConjT(Y, N, N), N, N, TRUE)
            A2 == Mk(N, N, LAMBDA i, j : CScale(Pow2(2 * dl), A.m[i][j]))
        IN /\ Assert(\A i \in 1..N : \A j \in 1..N : W[i][j] = Conj(W[j][i]), "not Hermitian")
           /\ Put(x, Sc(Merge(A2, W, N, uplo), 2 * dl))
           /\ Record(8, x, y, 0, "L", uplo, "N", "N", One, One, NoSub)

----------------------------------------------------------------------------
(* The call made at the current hash *)
B2(k) == (Hash(k) % 2) = 1
X2(k) == 1 + (Hash(k) % 2)
Side == IF B2(101) THEN "L" ELSE "R"
Uplo == IF B2(102) THEN "L" ELSE "U"
Trn == IF cfg.dist /\ B2(111) THEN "N" ELSE (<<"N", "T", "C">>)[(Hash(103) % 3) + 1]
Diag == IF B2(104) THEN "U" ELSE "N"
Alpha == Alphas[(Hash(105) % 8) + 1]
Beta == Alphas[(Hash(106) % 8) + 1]
\* right hand side for a side
Rhs(side) == IF side = "L" THEN 3 + (Hash(107) % 2) ELSE 5 + (Hash(107) % 2)
\* a stretch <<offset, length>> of an extent
Stretch(len, k) == IF Hash(k) % 3 = 0 \/ len = 0 THEN <<0, len>>
                   ELSE LET o == Hash(k + 1) % len IN <<o, (Hash(k + 2) % (len - o + 1))>>
\* triples x, y, z of registers such that z += x y makes sense
GemmRegs == <<<<1, 3, 4>>, <<1, 2, 2>>, <<2, 4, 3>>, <<3, 5, 1>>, <<4, 6, 2>>, <<5, 1, 6>>, <<6, 2, 5>>, <<1, 1, 2>>, <<3, 6, 2>>, <<5, 2, 6>>, <<2, 3, 4>>>>
\* offsets along the inner dimension agree modulo the tile size, so that the tiles of both match
GemmStep ==
  LET t == Pick(GemmRegs, 108)
      x == t[1] y == t[2] z == t[3]
      kk == ColsOf(x, cfg)
      kt == IF kk = N /\ x \in {1, 2, 5, 6} THEN cfg.nb ELSE cfg.mb
      ri == Stretch(RowsOf(z, cfg), 120) rj == Stretch(ColsOf(z, cfg), 130) rk == Stretch(kk, 140)
      \* the second offset: same remainder, so that the extent still fits
      slack == (kk - (rk[1] % kt) - rk[2]) \div kt
      kb2 == (rk[1] % kt) + (IF slack > 0 THEN kt * (Hash(150) % (slack + 1)) ELSE 0)
      koff == IF kk = 0 THEN 0 ELSE kb2
  IN Gemm(x, y, z, Alpha, Beta, ri[1], rj[1], rk[1], koff, ri[2], rk[2], rj[2])

TrsmStep == LET s == Side y == Rhs(s)
                ext == IF s = "L" THEN ColsOf(y, cfg) ELSE RowsOf(y, cfg)
                o == Stretch(ext, 160)
            IN Trsm(X2(109), y, s, Uplo, Trn, Diag, Pick(TrsmAlphas, 105), o[1], o[2])
TrmmStep == LET s == Side IN Trmm(X2(109), Rhs(s), s, Uplo, IF cfg.dist THEN "N" ELSE Trn, Diag, Alpha)
HemmStep == LET x == X2(109) y == 3 + (Hash(107) % 2) IN Hemm(x, y, 7 - y, Alpha, Beta)

Call(code) == CASE code = 1 -> Chol(X2(109))
                [] code = 2 -> TrsmStep
                [] code = 3 -> TrmmStep
                [] code = 4 -> GemmStep
                [] code = 5 -> HemmStep
                [] code = 6 -> Trinv(X2(109), Uplo, Diag)
                [] code = 7 -> LET x == X2(109) IN CholInv(x, IF fac[x].kind = "fac" THEN fac[x].uplo ELSE Uplo)
                [] code = 8 -> LET x == IF FirstCall = 8 /\ calls = <<>> THEN 1 ELSE X2(109) IN
                               GenStd(x, 3 - x, IF fac[3 - x].kind = "fac" THEN fac[3 - x].uplo ELSE Uplo)

Tries == 12
Code == IF calls = <<>> /\ FirstCall # 0 THEN FirstCall ELSE Pick(Table, 100)

\* `tries` counts the attempts
Next == /\ Len(calls) < Depth /\ tries < Tries
        /\ h' = Mix(h, tries + 200)
        /\ IF ENABLED Call(Code)
           THEN Call(Code)
           ELSE tries' = tries + 1 /\ UNCHANGED <<cfg, reg, fac, init, calls>>

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == Len(calls) = Depth \/ tries = Tries
B01(b) == IF b THEN 1 ELSE 0
Emit == (Done /\ calls # <<>>) =>
  PrintT(<<"E", cfg.seed, cfg.n, cfg.m, cfg.nb, cfg.mb, cfg.kb, cfg.P, cfg.Q, cfg.sr, cfg.sc, B01(cfg.dist), B01(cfg.cplx),
           Len(calls), calls, [x \in 1..6 |-> <<init[x].e, init[x].m>>], [x \in 1..6 |-> <<reg[x].e, reg[x].m>>]>>)
\* everything stays in the range where double precision is exact
Exact == \A x \in 1..6 : reg[x].e <= 20 /\ MaxAbs(reg[x].m, RowsOf(x, cfg), ColsOf(x, cfg)) < 536870912
==================================================================================
