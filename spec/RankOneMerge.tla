---------------------------- MODULE RankOneMerge ----------------------------
(* A merge of two solved halves of a tridiagonal problem, whole: given Q = diag(Q1, Q2) orthogonal, the values d of its
   columns and rho, the merged problem is  M = Q diag(d) Q^T + |rho| v v^T  with v zero but for the last row of the first
   half (the sign of rho) and the first row of the second (1).

   Q1 and Q2 are built from exact factors (integers over s1, s2), d has repeated values and z = Q^T v has zeros, so it is
   exact which columns stay eigenvectors of M: those with no component along v, and, of those with one value, all
   combinations orthogonal to the part of z they have in common.  What M's eigenvectors have to contain is known from
   the walk through the values in ascending order.  The rest of the spectrum separates the values that are left.
   A behaviour is a function of its seed.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Seeds, NMax, Grids, Steps
VARIABLES cfg, h, q1, q2, s1, s2, d, ph, idx, pos, grp, fixed, cnt
vars == <<cfg, h, q1, q2, s1, s2, d, ph, idx, pos, grp, fixed, cnt>>

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Hash(k) == Mix(h, k)
Mk(n, f(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> f(i, j)])])
Id(n) == Mk(n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Even(A, n) == \A i \in 1..n : \A j \in 1..n : A[i][j] % 2 = 0

Config(s) ==
  LET H(k) == Mix(Mix(s, 13), k)
      nb == 1 + (H(1) % 5)
      t1 == 1 + (H(2) % 3)
      t2 == 1 + (H(3) % 3)
      before == H(4) % 3
      after == H(5) % 2
      last == IF after > 0 THEN nb ELSE 1 + (H(6) % nb)
      n == (t1 + t2 - 1) * nb + last
      g == Grids[(H(7) % Len(Grids)) + 1]
      dist == g[1] > 0
      P == IF dist THEN g[1] ELSE 1
      Q == IF dist THEN g[2] ELSE 1
  IN  [seed |-> s, nb |-> nb, t1 |-> t1, t2 |-> t2, n1 |-> t1 * nb, n |-> IF n > NMax THEN 0 ELSE n, before |-> before, after |-> after,
       dist |-> dist, P |-> P, Q |-> Q, sr |-> H(8) % P, sc |-> H(9) % Q, rho |-> IF H(10) % 8 = 0 THEN 0 ELSE (H(10) % 9) - 4, fam |-> H(11) % 6, steps |-> H(12) % Steps,
       thr |-> 1 + (H(13) % 5)]
N == cfg.n
N1 == cfg.n1
N2 == cfg.n - cfg.n1
Value(c, i) == LET r == Mix(Mix(c.seed, 50), i) IN
  CASE c.fam = 0 -> (r % 41) - 20
    [] c.fam = 1 -> r % 3
    [] c.fam = 2 -> 6 * (r % 4)
    [] c.fam = 3 -> 4
    [] c.fam = 4 -> IF r % 3 = 0 THEN 0 ELSE r % 17
    [] OTHER -> IF i <= c.n1 THEN i ELSE i - c.n1
\* a half of one tile comes from the leaf solver, in ascending order
RECURSIVE InsertV(_, _)
InsertV(s, x) == IF s = <<>> THEN <<x>> ELSE IF x < Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o InsertV(TLCEval(Tail(s)), x)
RECURSIVE SortV(_, _)
SortV(s, acc) == IF s = <<>> THEN acc ELSE SortV(Tail(s), TLCEval(InsertV(acc, Head(s))))
Half(c, lo, hi, t) == LET v == [i \in 1..(hi - lo) |-> Value(c, lo + i)] IN IF t = 1 THEN SortV(v, <<>>) ELSE v
Init == \E s \in Seeds : \E c \in {Config(s)} :
  /\ c.n > c.n1
  /\ cfg = c /\ h = Mix(s, 5)
  /\ q1 = Id(c.n1) /\ q2 = Id(c.n - c.n1) /\ s1 = 1 /\ s2 = 1
  /\ d = Half(c, 0, c.n1, c.t1) \o Half(c, c.n1, c.n, c.t2)
  /\ ph = "build" /\ idx = <<>> /\ pos = 1 /\ grp = <<>> /\ fixed = <<>> /\ cnt = 0

----------------------------------------------------------------------------
\* Q := G Q for a factor G of the half: a reflection in four coordinates, a rotation by 3/5, 4/5, a swap, a sign
Coord(k, n) == (Hash(k) % n) + 1
Reflect(A, n) == LET a == Coord(21, n)
                     b(i) == ((a + i - 1) % n) + 1
                     c == <<b(0), b(1), b(2), b(3)>>
                     v == [k \in 1..4 |-> IF Hash(30 + k) % 2 = 0 THEN 1 ELSE -1]
                     of(i) == IF \E k \in 1..4 : c[k] = i THEN CHOOSE k \in 1..4 : c[k] = i ELSE 0
                 IN  Mk(n, LAMBDA i, j : 2 * A[i][j] - (IF of(i) = 0 THEN 0 ELSE v[of(i)] * (v[1] * A[c[1]][j] + v[2] * A[c[2]][j] + v[3] * A[c[3]][j] + v[4] * A[c[4]][j])))
Rotate(A, n) == LET a == Coord(22, n)
                    b == (a % n) + 1
                IN  Mk(n, LAMBDA i, j : IF i = a THEN 3 * A[a][j] + 4 * A[b][j] ELSE IF i = b THEN 3 * A[b][j] - 4 * A[a][j] ELSE 5 * A[i][j])
Swap(A, n) == LET a == Coord(23, n)
                  b == Coord(24, n)
                  t == IF Hash(25) % 2 = 0 THEN 1 ELSE -1
              IN  Mk(n, LAMBDA i, j : IF i = a THEN t * A[b][j] ELSE IF i = b THEN A[a][j] ELSE A[i][j])
Kind == Hash(20) % 6
\* the factor applied to a half: matrix and what the scale is multiplied by
Factor(A, n, s) == IF n >= 4 /\ Kind <= 2 /\ s * 2 * (IF s = s1 THEN s2 ELSE s1) <= 40
                     THEN \* (halve where possible)
                          LET B == Reflect(A, n) IN IF Even(B, n) THEN <<Mk(n, LAMBDA i, j : B[i][j] \div 2), s>> ELSE <<B, 2 * s>>
                   ELSE IF n >= 2 /\ Kind <= 4 /\ s * 5 * (IF s = s1 THEN s2 ELSE s1) <= 40 THEN <<Rotate(A, n), 5 * s>>
                   ELSE <<Swap(A, n), s>>
Build == /\ ph = "build" /\ cnt < cfg.steps
         /\ cnt' = cnt + 1 /\ h' = Mix(h, 1)
         /\ IF Hash(19) % 2 = 0 THEN \E f \in {Factor(q1, N1, s1)} : q1' = f[1] /\ s1' = f[2] /\ UNCHANGED <<q2, s2>>
                                ELSE \E f \in {Factor(q2, N2, s2)} : q2' = f[1] /\ s2' = f[2] /\ UNCHANGED <<q1, s1>>
         /\ UNCHANGED <<cfg, d, ph, idx, pos, grp, fixed>>

\* z = Q^T v, times s1 s2
Sgn == IF cfg.rho < 0 THEN -1 ELSE 1
Z(i) == IF i <= N1 THEN Sgn * q1[N1][i] * s2 ELSE q2[1][i - N1] * s1
RECURSIVE Insert(_, _, _)
Insert(s, x, v) == IF s = <<>> THEN <<x>> ELSE IF v[x] < v[Head(s)] THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(TLCEval(Tail(s)), x, v)
RECURSIVE SortIdx(_, _, _)
SortIdx(k, v, acc) == IF k > Len(v) THEN acc ELSE SortIdx(k + 1, v, TLCEval(Insert(acc, k, v)))
Sort == /\ ph = "build" /\ cnt = cfg.steps /\ ph' = "walk"
        /\ idx' = SortIdx(1, d, <<>>)
        /\ UNCHANGED <<cfg, h, q1, q2, s1, s2, d, pos, grp, fixed, cnt>>

\* grp: <<value, indices>> of what has been rotated together so far and still counts; fixed: known eigenpairs as
\* <<value, coefficients>> (coefficients of the columns of Q, not normalised)
Unit(i) == [j \in 1..N |-> IF j = i THEN 1 ELSE 0]
RECURSIVE SumZ(_, _)
SumZ(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumZ(S \ {x}, f)
Cur == idx[pos]
Take == /\ ph = "walk" /\ pos <= N
        /\ pos' = pos + 1
        /\ \E z \in {[i \in 1..N |-> Z(i)]} :
           IF z[Cur] = 0 THEN fixed' = Append(fixed, <<d[Cur], Unit(Cur)>>) /\ grp' = grp
           ELSE IF Len(grp) > 0 /\ grp[Len(grp)][1] = d[Cur]
                THEN LET g == grp[Len(grp)][2]
                         sq == [i \in 1..N |-> z[i] * z[i]]
                     IN  /\ fixed' = Append(fixed, <<d[Cur], [j \in 1..N |-> IF j \in g THEN z[Cur] * z[j] ELSE IF j = Cur THEN -SumZ(g, sq) ELSE 0]>>)
                         /\ grp' = [grp EXCEPT ![Len(grp)] = <<d[Cur], g \union {Cur}>>]
                ELSE grp' = Append(grp, <<d[Cur], {Cur}>>) /\ fixed' = fixed
        /\ UNCHANGED <<cfg, h, q1, q2, s1, s2, d, ph, idx, cnt>>
End == ph = "walk" /\ pos > N /\ ph' = "done" /\ UNCHANGED <<cfg, h, q1, q2, s1, s2, d, idx, pos, grp, fixed, cnt>>
Next == Build \/ Sort \/ Take \/ End
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Dot(_, _, _)
Dot(r, c, k) == IF k = 0 THEN 0 ELSE r[k] * c[k] + Dot(r, c, k - 1)
IsOrth(A, n, s) == \A i \in 1..n : \A j \in 1..n : Dot(A[i], A[j], n) = (IF i = j THEN s * s ELSE 0)
Orthogonal == IsOrth(q1, N1, s1) /\ IsOrth(q2, N2, s2)
\* every fixed pair is an eigenpair of D + |rho| z z^T whatever rho is: one value, nothing along z
Eigenpairs == ph = "done" => \A k \in 1..Len(fixed) :
  /\ \A j \in 1..N : fixed[k][2][j] # 0 => d[j] = fixed[k][1]
  /\ \E j \in 1..N : fixed[k][2][j] # 0
  /\ Dot(fixed[k][2], [i \in 1..N |-> Z(i)], N) = 0
\* they are orthogonal to one another
Independent == ph = "done" => \A k \in 1..Len(fixed) : \A l \in 1..(k - 1) : Dot(fixed[k][2], fixed[l][2], N) = 0
\* what is left has different values, and every column is in one place
Separated == ph = "done" => /\ \A k \in 2..Len(grp) : grp[k - 1][1] < grp[k][1]
                            /\ Len(grp) + Len(fixed) = N
                            /\ Len(grp) > 0
ZLength == ph = "walk" => Dot([i \in 1..N |-> Z(i)], [i \in 1..N |-> Z(i)], N) = 2 * s1 * s1 * s2 * s2

B01(b) == IF b THEN 1 ELSE 0
Emit == ph = "done" =>
  PrintT(<<"M", cfg.seed, cfg.nb, cfg.t1, cfg.t2, N, cfg.before, cfg.after, B01(cfg.dist), cfg.P, cfg.Q, cfg.sr, cfg.sc, cfg.thr, cfg.rho, s1, s2, q1, q2, d,
           Len(grp), [k \in 1..Len(grp) |-> grp[k][1]], Len(fixed), fixed>>)
=============================================================================
