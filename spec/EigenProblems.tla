---------------------------- MODULE EigenProblems ----------------------------
(* Eigenproblems with known solutions.

   A behaviour builds a unitary matrix U step by step from exact factors (reflections in four coordinates with unit
   entries, transpositions, unit phases), so that A = U diag(lam) U^H is a Hermitian matrix whose eigenvalues are the
   integers lam and whose eigenvectors are the columns of U, all exact (Gaussian integers over powers of two).
   For generalised problems a lower triangular L is built the same way: the pencil is (L A L^H, L L^H).
   Then one call of the library is made.  What it has to produce is a function of the state:
     1 eigensolver               eigenvalues lam in ascending order; eigenvector j in the eigenspace of lam[j]
     2 generalised eigensolver   the same, eigenvectors L^-H U
     3 reduction to band, back-transformation         a band matrix similar to A, by the transformation that is applied
     4 band to tridiagonal, back-transformation       a tridiagonal matrix similar to the band of A
     5 tridiagonal eigensolver   ascending eigenvalues, eigenvectors of the tridiagonal matrix (d, off)
     6 everything, stage by stage on one matrix without waiting
   Behaviours are functions of their seed.                                                                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Seeds, NMax, Grids, Modes
VARIABLES h, cfg, lam, u, e, lt, ops, d, off
vars == <<h, cfg, lam, u, e, lt, ops, d, off>>

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Hash(k) == Mix(h, k)
Pick(s, k) == s[(Hash(k) % Len(s)) + 1]
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b

Zero == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Mk(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
\* values bound by set membership are evaluated once
One(S) == CHOOSE x \in S : TRUE
ConjT(A, n) == One({Mk(n, n, LAMBDA i, j : Conj(a[j][i])) : a \in {A}})
RECURSIVE Dot(_, _, _, _)
Dot(r, c, k, acc) == IF k = 0 THEN acc ELSE Dot(r, c, k - 1, TLCEval(IF r[k] = Zero \/ c[k] = Zero THEN acc ELSE CAdd(acc, CMul(r[k], c[k]))))
Mul(A, B, n) == One({Mk(n, n, LAMBDA i, j : Dot(a[i], bt[j], n, Zero)) : a \in {A}, bt \in {Mk(n, n, LAMBDA i, j : b[j][i]) : b \in {B}}})
Id(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN <<1, 0>> ELSE Zero)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE SortInsert(_, _)
SortInsert(s, x) == IF s = <<>> \/ Head(s) >= x THEN <<x>> \o s ELSE <<Head(s)>> \o SortInsert(TLCEval(Tail(s)), x)
RECURSIVE Sorted(_, _, _)
Sorted(f, k, acc) == IF k = 0 THEN acc ELSE Sorted(f, k - 1, TLCEval(SortInsert(acc, f[k])))

----------------------------------------------------------------------------
Unit(k, cplx) == LET r == Hash(k) % 4 IN IF cplx THEN Pick(<<<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>>>, k) ELSE IF r < 2 THEN <<1, 0>> ELSE <<-1, 0>>

\* spectra: distinct, few values, one value, pairs, clusters around the ends, mostly zero
Value(fam, i, n) ==
  LET r == Hash(100 + i) IN
  CASE fam = 0 -> (r % 41) - 20
    [] fam = 1 -> (r % 3) * 5 - 4
    [] fam = 2 -> (Hash(99) % 9) - 4
    [] fam = 3 -> ((i \div 2) * 3) - n
    [] fam = 4 -> IF i % 2 = 0 THEN -7 ELSE 7
    [] fam = 5 -> IF r % 5 = 0 THEN r % 7 ELSE 0
    [] OTHER -> 2 * i - n

Config(s) ==
  LET H(k) == Mix(Mix(s, 3), k)
      mode == Modes[(H(1) % Len(Modes)) + 1]
      g == Grids[(H(2) % Len(Grids)) + 1]
      dist == g[1] > 0
      P == IF dist THEN g[1] ELSE 1
      Q == IF dist THEN g[2] ELSE 1
      nb == IF mode = 5 THEN 1 + (H(3) % 5) ELSE IF mode = 4 \/ mode = 3 THEN 2 + (H(3) % 5) ELSE 2 + (H(3) % 7)
      n == IF H(4) % 12 = 0 THEN H(5) % 3 ELSE 1 + (H(5) % NMax)
      minb == 2 + (H(6) % 3)
  IN  [seed |-> s, mode |-> mode, n |-> n, nb |-> nb, dist |-> dist, P |-> P, Q |-> Q, sr |-> H(7) % P, sc |-> H(8) % Q,
       cplx |-> H(9) % 2 = 0, var |-> H(10) % 4, ke |-> H(11) % (n + 1), m |-> H(12) % (n + 4), mb |-> 1 + (H(13) % 4),
       minb |-> minb, hhg |-> 1 + (H(14) % 5), b1d |-> 1 + (H(15) % 12), thr |-> 1 + (H(16) % 4), steps |-> H(17) % 9,
       fam |-> H(18) % 7, tri |-> H(19) % 6]

Init == \E s \in Seeds :
  /\ cfg = Config(s)
  /\ h = Mix(s, 5)
  /\ lam = Sorted(TLCEval([i \in 1..cfg.n |-> Value(cfg.fam, i, cfg.n)]), cfg.n, <<>>)
  /\ u = Id(cfg.n) /\ e = 0 /\ lt = Id(cfg.n) /\ ops = <<>>
  /\ d = <<>> /\ off = <<>>

Step == h' = Mix(h, 1) /\ UNCHANGED <<cfg, lam>>
Kind == Hash(20) % 6
\* four different coordinates
Coords == LET n == cfg.n
              a == Hash(21) % n
              b == (a + 1 + (Hash(22) % (n - 3))) % n
              \* the others: the two smallest ones after b which are neither a nor b
              nx(x) == LET y == (x + 1) % n IN IF y \in {a, b} THEN (LET z == (y + 1) % n IN IF z \in {a, b} THEN (z + 1) % n ELSE z) ELSE y
              c == nx(b)
              f == nx(c)
          IN  <<a + 1, b + 1, c + 1, f + 1>>
\* (1 - v v^H / 2) U for v with unit entries in four coordinates
Reflect == LET n == cfg.n IN
  \E c \in {Coords} : \E v \in {[k \in 1..4 |-> Unit(30 + k, cfg.cplx)]} :
  \E vu \in {[j \in 1..n |-> Dot([k \in 1..4 |-> Conj(v[k])], [k \in 1..4 |-> u[c[k]][j]], 4, Zero)]} :
  \E pos \in {[i \in 1..n |-> IF \E k \in 1..4 : c[k] = i THEN CHOOSE k \in 1..4 : c[k] = i ELSE 0]} :
  \E new \in {Mk(n, n, LAMBDA i, j : IF pos[i] = 0 THEN <<2 * u[i][j][1], 2 * u[i][j][2]>>
                                     ELSE LET t == CMul(v[pos[i]], vu[j]) IN <<2 * u[i][j][1] - t[1], 2 * u[i][j][2] - t[2]>>)} :
  \E even \in {\A i \in 1..n : \A j \in 1..n : new[i][j][1] % 2 = 0 /\ new[i][j][2] % 2 = 0} :
      /\ u' = IF even THEN Mk(n, n, LAMBDA i, j : <<new[i][j][1] \div 2, new[i][j][2] \div 2>>) ELSE new
      /\ e' = IF even THEN e ELSE e + 1
      /\ ops' = Append(ops, 1) /\ UNCHANGED <<lt, d, off>>
Swap ==
  LET a == (Hash(23) % cfg.n) + 1 b == (Hash(24) % cfg.n) + 1
  IN u' = [u EXCEPT ![a] = u[b], ![b] = u[a]] /\ ops' = Append(ops, 2) /\ UNCHANGED <<e, lt, d, off>>
Phase ==
  LET a == (Hash(25) % cfg.n) + 1 p == Unit(26, cfg.cplx)
  IN u' = [u EXCEPT ![a] = [j \in 1..cfg.n |-> CMul(p, u[a][j])]] /\ ops' = Append(ops, 3) /\ UNCHANGED <<e, lt, d, off>>
Lower ==
  LET a == (Hash(27) % cfg.n) + 1 b == (Hash(28) % cfg.n) + 1
  IN  /\ lt' = IF a = b THEN [lt EXCEPT ![a][a] = <<2, 0>>] ELSE [lt EXCEPT ![Most(a, b)][Least(a, b)] = Unit(29, cfg.cplx)]
      /\ ops' = Append(ops, 4) /\ UNCHANGED <<u, e, d, off>>

\* tridiagonal matrices: arbitrary, with zeros, constant, with squares of the off-diagonal (negative numbers stand
\* for square roots), glued copies (coupling 2^-40: 1000), zero
TriDiag == /\ d' = [i \in 1..cfg.n |-> CASE cfg.tri = 0 -> (Hash(40 + i) % 21) - 10
                                          [] cfg.tri = 1 -> (Hash(40 + i) % 5)
                                          [] cfg.tri = 2 -> 3
                                          [] cfg.tri = 3 -> 0
                                          [] cfg.tri = 4 -> (i % 4) * (i % 4)
                                          [] OTHER -> IF Hash(40 + i) % 4 = 0 THEN 5 ELSE 0]
           /\ off' = [i \in 1..(cfg.n - 1) |-> CASE cfg.tri = 0 -> (Hash(90 + i) % 9) - 4
                                               [] cfg.tri = 1 -> IF Hash(90 + i) % 3 = 0 THEN 0 ELSE 2
                                               [] cfg.tri = 2 -> 1
                                               [] cfg.tri = 3 -> -(i * (cfg.n - i)) - 2000
                                               [] cfg.tri = 4 -> IF i % 4 = 3 THEN 1000 ELSE 1
                                               [] OTHER -> 0]
           /\ lam' = IF cfg.tri = 3 THEN [i \in 1..cfg.n |-> 2 * i - 1 - cfg.n] ELSE IF cfg.tri = 5 THEN Sorted(d', cfg.n, <<>>) ELSE <<>>
           /\ h' = Mix(h, 1) /\ ops' = Append(ops, 5) /\ UNCHANGED <<cfg, u, e, lt>>

Done == IF cfg.mode = 5 THEN d # <<>> \/ cfg.n = 0 ELSE Len(ops) >= cfg.steps \/ cfg.n = 0
Next == \/ /\ ~Done /\ cfg.mode # 5 /\ Step
           /\ CASE cfg.n >= 4 /\ Kind <= 2 /\ e < 6 -> Reflect
                [] Kind = 3 -> Phase
                [] cfg.mode = 2 /\ Kind >= 4 -> Lower
                [] OTHER -> Swap
        \/ ~Done /\ cfg.mode = 5 /\ TriDiag
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Scaled(k) == Mk(cfg.n, cfg.n, LAMBDA i, j : IF i = j THEN <<k, 0>> ELSE Zero)
Unitary == cfg.n <= 8 => Mul(u, ConjT(u, cfg.n), cfg.n) = Scaled(Pow2(2 * e)) /\ Mul(ConjT(u, cfg.n), u, cfg.n) = Scaled(Pow2(2 * e))
\* times 4^e
A == Mul(Mk(cfg.n, cfg.n, LAMBDA i, j : <<u[i][j][1] * lam[j], u[i][j][2] * lam[j]>>), ConjT(u, cfg.n), cfg.n)
Embedded(a) == LET l == lt IN Mul(Mul(l, a, cfg.n), ConjT(l, cfg.n), cfg.n)
\* A U = U diag(lam), A Hermitian
Decomposes == Done /\ cfg.mode # 5 /\ cfg.n > 0 =>
  \E a \in {A} : /\ a = ConjT(a, cfg.n)
                /\ (\A i \in 1..cfg.n : \A j \in 1..cfg.n : a[i][j][1] \in -100000000..100000000)
                /\ (cfg.n <= 8 /\ e <= 4 => Mul(a, u, cfg.n) = Mk(cfg.n, cfg.n, LAMBDA i, j : <<u[i][j][1] * lam[j] * Pow2(2 * e), u[i][j][2] * lam[j] * Pow2(2 * e)>>))
\* the characteristic polynomial of the leading block of order k at x, for the tridiagonal families with known spectrum
RECURSIVE Charac(_, _, _, _)
Charac(x, k, p, q) == IF k > cfg.n THEN p
  ELSE Charac(x, k + 1, TLCEval((d[k] - x) * p - (IF k = 1 THEN 0 ELSE (IF off[k - 1] < -1000 THEN -off[k - 1] - 2000 ELSE off[k - 1] * off[k - 1]) * q)), p)
Characteristic == Done /\ cfg.mode = 5 /\ lam # <<>> /\ cfg.n \in 1..8 => \A i \in 1..cfg.n : Charac(lam[i], 1, 1, 0) = 0
Ascending == \A i \in 1..(Len(lam) - 1) : lam[i] <= lam[i + 1]

B01(b) == IF b THEN 1 ELSE 0
LowerTri(M) == [i \in 1..cfg.n |-> [j \in 1..i |-> M[i][j]]]
Emit == Done => \E a \in {IF cfg.mode = 5 THEN <<>> ELSE IF cfg.mode = 2 THEN Embedded(A) ELSE A} :
  PrintT(<<"E", cfg.seed, cfg.mode, cfg.n, cfg.nb, B01(cfg.dist), cfg.P, cfg.Q, cfg.sr, cfg.sc, B01(cfg.cplx), cfg.var, cfg.ke, cfg.m, cfg.mb,
           cfg.minb, cfg.hhg, cfg.b1d, cfg.thr, e, Len(ops), Len(lam), lam, Len(d), d, Len(off), off,
           IF cfg.mode = 5 THEN <<>> ELSE <<LowerTri(a), u, IF cfg.mode = 2 THEN LowerTri(lt) ELSE <<>> >> >>)
=============================================================================
