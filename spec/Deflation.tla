------------------------------ MODULE Deflation ------------------------------
(* One merge of the divide and conquer tridiagonal solver: which of the columns of the two solved halves take part in
   the rank-one problem (D + rho z z^T), and in which order everything is put.

   The values d of the halves are integers in any order, each half comes with an index that sorts it.  The entries of z
   are square roots: z[i] = sgn[i] sqrt(w[i]).  The walk goes through the values in ascending order and keeps a candidate
   i1; it leaves out entries with a negligible z and, where two values are close, rotates one entry of z away.  All of
   this is exact here: a rotated value is a weighted mean (numerator, denominator).
   Afterwards the entries are ordered in two ways: by value (those left out behind the others), and by the shape of
   their columns, on every process for itself.
   A behaviour is a function of its seed.  One in which a comparison is an inexact tie stops.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Seeds, NMax, Grids
VARIABLES cfg,          \* the problem
          ph,           \* "add", "sort", "walk", "order", "done", "tie"
          ia,           \* index that sorts each half, later the whole
          i1, i2,       \* positions of the walk (from 1)
          dn, dd, w, ct, rots,
          ord           \* the orders, at the end
vars == <<cfg, ph, ia, i1, i2, dn, dd, w, ct, rots, ord>>

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
One(S) == CHOOSE x \in S : TRUE
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Upper == 1
Dense == 2
Lower == 3
Out == 4   \* deflated

\* a permutation of 0..n-1 as a sequence that sorts the values v[b+1..b+n] (ties either way)
RECURSIVE Insert(_, _, _, _)
Insert(s, x, v, left) == IF s = <<>> THEN <<x>>
  ELSE IF v[x + 1] < v[Head(s) + 1] \/ (left /\ v[x + 1] = v[Head(s) + 1]) THEN <<x>> \o s
  ELSE <<Head(s)>> \o Insert(TLCEval(Tail(s)), x, v, left)
RECURSIVE SortIdx(_, _, _, _)
SortIdx(k, v, left, acc) == IF k = Len(v) THEN acc ELSE SortIdx(k + 1, v, left, TLCEval(Insert(acc, k, v, left)))

Config(s) ==
  LET H(k) == Mix(Mix(s, 3), k)
      nb == 1 + (H(1) % 4)
      t1 == 1 + (H(2) % 3)
      t2 == 1 + (H(3) % 3)
      want == (t1 + t2) * nb
      \* tiles before and after the problem
      before == H(4) % 3
      after == H(5) % 2
      last == IF after > 0 THEN nb ELSE 1 + (H(6) % nb)
      n == IF want - nb + last > NMax THEN 0 ELSE want - nb + last
      g == Grids[(H(7) % Len(Grids)) + 1]
  IN  [seed |-> s, nb |-> nb, t1 |-> t1, t2 |-> t2, n1 |-> t1 * nb, n |-> n, before |-> before, after |-> after,
       P |-> g[1], Q |-> g[2], sr |-> H(8) % g[1], sc |-> H(9) % g[2], rho |-> 1 + (H(10) % 2), tol |-> 1 + (H(11) % 3),
       fam |-> H(12) % 6, left |-> H(13) % 2 = 0, wfam |-> H(14) % 4, neg |-> H(15) % 2]
Value(c, i) == LET r == Mix(Mix(c.seed, 50), i) IN
  CASE c.fam = 0 -> (r % 41) - 20
    [] c.fam = 1 -> r % 4
    [] c.fam = 2 -> 5 * (r % 3)
    [] c.fam = 3 -> 7
    [] c.fam = 4 -> (r % 12) - 6
    [] OTHER -> IF i < c.n1 THEN (3 * i) % 10 ELSE (3 * (i - c.n1) + 1) % 10
Weight(c, i) == LET r == Mix(Mix(c.seed, 70), i) IN
  CASE c.wfam = 0 -> r % 8
    [] c.wfam = 1 -> 5 + (r % 3)
    [] c.wfam = 2 -> IF r % 3 = 0 THEN 0 ELSE 7
    [] OTHER -> IF r % 4 = 0 THEN 11 ELSE r % 2
Sign(c, i) == IF Mix(Mix(c.seed, 90), i) % 2 = 0 THEN 1 ELSE -1

Init == \E s \in Seeds : \E c \in {Config(s)} :
  /\ c.n > c.n1
  /\ cfg = c
  /\ dn = [i \in 1..c.n |-> Value(c, i - 1)] /\ dd = [i \in 1..c.n |-> 1]
  /\ w = [i \in 1..c.n |-> Weight(c, i - 1)]
  /\ ct = [i \in 1..c.n |-> IF i <= c.n1 THEN Upper ELSE Lower]
  /\ ia = SortIdx(0, SubSeq(dn, 1, c.n1), c.left, <<>>) \o SortIdx(0, SubSeq(dn, c.n1 + 1, c.n), ~c.left, <<>>)
  /\ i1 = 1 /\ i2 = 2 /\ rots = <<>> /\ ord = <<>> /\ ph = "add"

N == cfg.n
\* the index of the second half gets to count from the start of the first
Shift == /\ ph = "add" /\ ph' = "sort"
         /\ ia' = [i \in 1..N |-> IF i <= cfg.n1 THEN ia[i] ELSE ia[i] + cfg.n1]
         /\ UNCHANGED <<cfg, i1, i2, dn, dd, w, ct, rots, ord>>
RECURSIVE Merge(_, _, _)
Merge(a, b, acc) == IF a = <<>> THEN acc \o b ELSE IF b = <<>> THEN acc \o a
  ELSE IF dn[Head(b) + 1] < dn[Head(a) + 1] THEN Merge(a, Tail(b), TLCEval(Append(acc, Head(b)))) ELSE Merge(Tail(a), b, TLCEval(Append(acc, Head(a))))
Sort == /\ ph = "sort" /\ ph' = "walk"
        /\ ia' = Merge(SubSeq(ia, 1, cfg.n1), SubSeq(ia, cfg.n1 + 1, N), <<>>)
        /\ UNCHANGED <<cfg, i1, i2, dn, dd, w, ct, rots, ord>>

A == ia[i1] + 1
B == ia[i2] + 1
Small(x) == cfg.rho * cfg.rho * x <= cfg.tol * cfg.tol
\* |c s (d2 - d1)| against tol, squared and without denominators
Dist == dn[B] * dd[A] - dn[A] * dd[B]
Lhs == w[A] * w[B] * Dist * Dist
Rhs == cfg.tol * cfg.tol * dd[A] * dd[A] * dd[B] * dd[B] * (w[A] + w[B]) * (w[A] + w[B])
Walking == ph = "walk" /\ i2 <= N
Drop1 == /\ Walking /\ Small(w[A])
         /\ ct' = [ct EXCEPT ![A] = Out] /\ i1' = i2 /\ i2' = i2 + 1 /\ UNCHANGED <<cfg, ph, ia, dn, dd, w, rots, ord>>
Drop2 == /\ Walking /\ ~Small(w[A]) /\ Small(w[B])
         /\ ct' = [ct EXCEPT ![B] = Out] /\ i2' = i2 + 1 /\ UNCHANGED <<cfg, ph, ia, i1, dn, dd, w, rots, ord>>
Far == /\ Walking /\ ~Small(w[A]) /\ ~Small(w[B]) /\ Lhs > Rhs
       /\ i1' = i2 /\ i2' = i2 + 1 /\ UNCHANGED <<cfg, ph, ia, dn, dd, w, ct, rots, ord>>
Mean(x, y, wx, wy) == LET p == dn[x] * dd[y] * wx + dn[y] * dd[x] * wy
                          q == dd[x] * dd[y] * (wx + wy)
                          g == Gcd(Abs(p), q)
                      IN  <<p \div g, q \div g>>
Rotate == /\ Walking /\ ~Small(w[A]) /\ ~Small(w[B]) /\ Lhs < Rhs
          /\ \E a \in {A} : \E b \in {B} : \E ma \in {Mean(A, B, w[A], w[B])} : \E mb \in {Mean(A, B, w[B], w[A])} :
             /\ dn' = [dn EXCEPT ![a] = ma[1], ![b] = mb[1]]
             /\ dd' = [dd EXCEPT ![a] = ma[2], ![b] = mb[2]]
             /\ rots' = Append(rots, <<a - 1, b - 1, w[a], w[b]>>)
             /\ w' = [w EXCEPT ![a] = w[a] + w[b], ![b] = 0]
             /\ ct' = [ct EXCEPT ![a] = IF {ct[a], ct[b]} = {Upper, Lower} THEN Dense ELSE ct[a], ![b] = Out]
          /\ i2' = i2 + 1 /\ UNCHANGED <<cfg, ph, ia, i1, ord>>
Tie == /\ Walking /\ ~Small(w[A]) /\ ~Small(w[B]) /\ Lhs = Rhs
       /\ ph' = "tie" /\ UNCHANGED <<cfg, ia, i1, i2, dn, dd, w, ct, rots, ord>>
EndWalk == ph = "walk" /\ i2 > N /\ ph' = "order" /\ UNCHANGED <<cfg, ia, i1, i2, dn, dd, w, ct, rots, ord>>

----------------------------------------------------------------------------
Less(x, y) == dn[x + 1] * dd[y + 1] < dn[y + 1] * dd[x + 1]
Same(x, y) == dn[x + 1] * dd[y + 1] = dn[y + 1] * dd[x + 1]
RECURSIVE Filter(_, _, _)
Filter(s, T, acc) == IF s = <<>> THEN acc ELSE Filter(Tail(s), T, TLCEval(IF ct[Head(s) + 1] \in T THEN Append(acc, Head(s)) ELSE acc))
RECURSIVE InsertQ(_, _)
InsertQ(s, x) == IF s = <<>> THEN <<x>> ELSE IF ~Less(Head(s), x) THEN <<x>> \o s ELSE <<Head(s)>> \o InsertQ(TLCEval(Tail(s)), x)
RECURSIVE SortQ(_, _)
SortQ(s, acc) == IF s = <<>> THEN acc ELSE SortQ(Tail(s), TLCEval(InsertQ(acc, Head(s))))
Used == {Upper, Dense, Lower}
\* by value: initial <- deflated
Order3 == Filter(ia, Used, <<>>) \o SortQ(Filter(ia, {Out}, <<>>), <<>>)
\* by shape, all columns together, and on each process for itself
Shape(s) == Filter(s, {Upper}, <<>>) \o Filter(s, {Dense}, <<>>) \o Filter(s, {Lower}, <<>>) \o Filter(s, {Out}, <<>>)
Owner(j) == ((j \div cfg.nb) + cfg.before + cfg.sc) % cfg.Q
RECURSIVE OnRank(_, _, _)
OnRank(s, r, acc) == IF s = <<>> THEN acc ELSE OnRank(Tail(s), r, TLCEval(IF Owner(Head(s)) = r THEN Append(acc, Head(s)) ELSE acc))
Place(j) == Cardinality({x \in 0..j : Owner(x) = Owner(j)})
Order5(o3) == \E q \in {[r \in 0..(cfg.Q - 1) |-> Shape(OnRank(o3, r, <<>>))]} : \E o5 \in {[j \in 1..N |-> q[Owner(j - 1)][Place(j - 1)]]} :
              ord' = [o3 |-> o3, o5 |-> o5]
Order == /\ ph = "order" /\ ph' = "done"
         /\ \E o3 \in {Order3} : Order5(o3)
         /\ UNCHANGED <<cfg, ia, i1, i2, dn, dd, w, ct, rots>>
Next == Shift \/ Sort \/ Drop1 \/ Drop2 \/ Far \/ Rotate \/ Tie \/ EndWalk \/ Order
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
IsPerm(s) == Len(s) = N /\ {s[i] : i \in 1..N} = 0..(N - 1)
Index == ph \notin {"add"} => IsPerm(ia)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
\* a rotation keeps the length of z
Length == Sum(w, N) = Sum([i \in 1..N |-> Weight(cfg, i - 1)], N)
\* those still in use are in ascending order all the time
InUse(i) == ct[i] # Out
Ascending == ph \notin {"add", "sort"} =>
  \A x \in 1..N : \A y \in 1..N : x < y /\ InUse(ia[x] + 1) /\ InUse(ia[y] + 1) => ~Less(ia[y], ia[x])
\* a column is in use for both halves only when entries of both were rotated into it
Halves == \A i \in 1..N :
  /\ (ct[i] = Dense) => (\E r \in 1..Len(rots) : rots[r][1] = i - 1 /\ (rots[r][2] < cfg.n1 <=> i > cfg.n1))
  /\ (ct[i] = Upper) => (i <= cfg.n1)
  /\ (ct[i] = Lower) => (i > cfg.n1)
\* nothing that counts is left out: what is left out has a negligible entry of z, and something is left
OnlySmall == \A i \in 1..N : ct[i] = Out => Small(w[i])
Some == ph = "done" => \E i \in 1..N : InUse(i)
\* apart from a last candidate that nothing else is left to compare with, all of the rest counts
AllSmall == ph = "done" /\ Cardinality({i \in 1..N : InUse(i)}) > 1 => \A i \in 1..N : InUse(i) => ~Small(w[i])
ByValue(o) == \E k \in 0..N : (\A i \in 1..k : InUse(o[i] + 1)) /\ (\A i \in (k + 1)..N : ~InUse(o[i] + 1))
                                /\ (\A i \in 1..(N - 1) : i # k => ~Less(o[i + 1], o[i]))
\* nothing changes its process; shapes are grouped on every process
ByShape(o) == /\ \A i \in 1..N : Owner(o[i]) = Owner(i - 1)
              /\ \A i \in 1..N : \A j \in 1..N : (i < j /\ Owner(i - 1) = Owner(j - 1)) => (ct[o[i] + 1] <= ct[o[j] + 1])
Orders == ph = "done" => (IsPerm(ord.o3) /\ IsPerm(ord.o5) /\ ByValue(ord.o3) /\ ByShape(ord.o5))
\* a rotation keeps the sum of the two values, and both stay between them
Kept == Len(rots') > Len(rots) =>
  \E a \in {A} : \E b \in {B} :
   /\ (dn'[a] * dd'[b] + dn'[b] * dd'[a]) * dd[a] * dd[b] = (dn[a] * dd[b] + dn[b] * dd[a]) * dd'[a] * dd'[b]
   /\ \A x \in {a, b} : dn[a] * dd'[x] <= dn'[x] * dd[a] /\ dn'[x] * dd[b] <= dn[b] * dd'[x]
Mean2 == [][Kept]_vars

B01(b) == IF b THEN 1 ELSE 0
Zs(f) == [i \in 1..N |-> f[i] * Sign(cfg, i - 1)]
IdxIn == SortIdx(0, [i \in 1..cfg.n1 |-> Value(cfg, i - 1)], cfg.left, <<>>) \o SortIdx(0, [i \in 1..(N - cfg.n1) |-> Value(cfg, cfg.n1 + i - 1)], ~cfg.left, <<>>)
Emit == ph = "done" =>
  PrintT(<<"E", cfg.seed, cfg.nb, cfg.t1, cfg.t2, N, cfg.before, cfg.after, cfg.P, cfg.Q, cfg.sr, cfg.sc, cfg.rho, cfg.tol, cfg.neg,
           [i \in 1..N |-> Value(cfg, i - 1)], [i \in 1..N |-> Weight(cfg, i - 1)], [i \in 1..N |-> Sign(cfg, i - 1)], IdxIn,
           dn, dd, w, ct, Len(rots), rots, ia, ord.o3, ord.o5>>)
=============================================================================
