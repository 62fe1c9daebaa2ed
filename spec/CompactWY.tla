------------------------------- MODULE CompactWY -------------------------------
(* Products of elementary reflectors H = I - tau v v^H, their compact form         *)
(* Q = I - V T V^H, and what the two back-transformations do with them.            *)
(*                                                                                 *)
(* A behaviour applies reflectors to a matrix C from the last one to the first;    *)
(* the state carries the vectors V, the triangular factor T and C itself.  Where   *)
(* the reflectors live is a function of the mode:                                  *)
(*   1  a panel of k columns: reflector i starts in row i of the panel             *)
(*   2  the reduction of an n x n matrix to band form with bandwidth b:            *)
(*      reflector j starts in row b + j, j = 0 .. n - b - 2                        *)
(*   3  the reduction of a band matrix to tridiagonal form: sweep s, step t has    *)
(*      a reflector of at most b rows starting in row s + 1 + t b                  *)
(* Entries are Gaussian integers, on which neither the library nor the model rounds *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Seeds, NMax, Grids, Modes

VARIABLES h, cfg,
          left,     \* reflectors still to apply
          refs,     \* the applied ones, in the order of the product: [top, tau, v]
          t,        \* triangular factor of the applied ones
          c,        \* C after the applied ones
          c0,       \* C at the beginning
          wild      \* reflectors which are not unitary (their number is bounded to keep numbers small)
vars == <<h, cfg, left, refs, t, c, c0, wild>>

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Hash(k) == Mix(h, k)
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

Zero == <<0, 0>>
One == <<1, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Neg(a) == <<-a[1], -a[2]>>
The(S) == CHOOSE x \in S : TRUE
Mk(r, k, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..k |-> f(i, j)])])
RECURSIVE Sum(_, _, _)
\* sum of f[i], i in lo..hi
Sum(f, lo, hi) == IF lo > hi THEN Zero ELSE CAdd(f[lo], Sum(f, lo + 1, hi))

----------------------------------------------------------------------------
Config(s) ==
  LET H(k) == Mix(Mix(s, 5), k)
      mode == Modes[(H(1) % Len(Modes)) + 1]
      g == Grids[(H(2) % Len(Grids)) + 1]
      dist == g[1] > 0
      P == IF dist THEN g[1] ELSE 1
      Q == IF dist THEN g[2] ELSE 1
      b == IF mode = 3 THEN 2 + (H(3) % 3) ELSE 1 + (H(3) % 6)
      nb == IF mode = 3 THEN b * (1 + (H(4) % 3)) ELSE 1 + (H(4) % 5)
      n == IF mode # 1 /\ H(5) % 12 = 0 THEN H(6) % 3 ELSE 1 + (H(6) % NMax)
      w == 1 + (H(7) % 5)   \* columns of a tile of C, or of the panel's matrix
      c1 == IF mode = 1 THEN H(8) % w ELSE 0
      kk == IF mode = 1 THEN (Least(n, Most(1, w - c1 - (IF H(9) % 3 = 0 THEN 1 ELSE 0)))) ELSE 0
  IN  [seed |-> s, mode |-> mode, dist |-> dist, P |-> P, Q |-> Q, sr |-> H(10) % P, sc |-> H(11) % Q, n |-> n, b |-> b, nb |-> nb,
       w |-> w, col |-> c1, row |-> IF mode = 1 THEN H(12) % 7 ELSE 0, k |-> kk, m |-> IF mode = 1 THEN n ELSE IF H(13) % 12 = 0 THEN 0 ELSE 1 + (H(14) % 6),
       cplx |-> H(15) % 2 = 0, hhg |-> IF H(16) % 5 = 0 THEN 64 ELSE 1 + (H(16) % 4), thr |-> 1 + (H(17) % 4)]

\* where the reflectors start and how long they are, in the order of the product
Sweeps(cf) == Most(0, IF cf.cplx THEN cf.n - 1 ELSE cf.n - 2)
Steps(cf, s) == IF s = cf.n - 2 THEN 1 ELSE CeilDiv(cf.n - s - 2, cf.b)
RECURSIVE Chase(_, _)
Chase(cf, s) == IF s >= Sweeps(cf) THEN <<>>
  ELSE [i \in 1..Steps(cf, s) |-> LET top == s + 1 + (i - 1) * cf.b IN [top |-> top, len |-> Least(cf.b, cf.n - top), col |-> s]] \o Chase(cf, s + 1)
Slots(cf) ==
  CASE cf.mode = 1 -> [i \in 1..cf.k |-> [top |-> i - 1, len |-> cf.n - i + 1, col |-> i - 1]]
    [] cf.mode = 2 -> [i \in 1..Most(0, cf.n - cf.b - 1) |-> [top |-> cf.b + i - 1, len |-> cf.n - cf.b - i + 1, col |-> i - 1]]
    [] OTHER -> Chase(cf, 0)

Entry(cf, s, i, j) == LET a == Mix(Mix(s, i * 61 + 7), j * 89 + 3) IN IF cf.mode = 1 THEN (IF i = j THEN One ELSE Zero)
                      ELSE <<(a % 5) - 2, IF cf.cplx THEN ((a \div 5) % 5) - 2 ELSE 0>>
Init == \E s \in Seeds : \E cf \in {Config(s)} :
  /\ h = Mix(s, 9) /\ cfg = cf
  /\ left = Slots(cf) /\ refs = <<>> /\ t = <<>> /\ wild = 0
  /\ c0 = Mk(cf.n, cf.m, LAMBDA i, j : Entry(cf, s, i, j)) /\ c = c0

----------------------------------------------------------------------------
\* The next reflector: mostly unitary ones (v = e_top, or e_top + unit * e_i), some with no effect, some arbitrary ones
Units == IF cfg.cplx THEN <<<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>>> ELSE <<<<1, 0>>, <<-1, 0>>>>
Unit(k) == Units[(Hash(k) % Len(Units)) + 1]
Kind(sl) == LET r == Hash(1) % 8 IN IF r = 7 THEN "none"
            ELSE IF r >= 5 /\ wild < 3 /\ sl.len >= 2 THEN "wild" ELSE IF r >= 1 /\ sl.len >= 2 THEN "swap" ELSE "sign"
Vector(sl, kind) ==
  LET other == sl.top + 2 + (Hash(2) % (sl.len - 1))  \* a row after the first one (numbered from 1)
  IN  [i \in 1..cfg.n |-> CASE i = sl.top + 1 -> One
                            [] kind = "swap" /\ i = other -> Unit(3)
                            [] kind \in {"wild", "none"} /\ i > sl.top + 1 /\ i <= sl.top + sl.len /\ Hash(20 + i) % 2 = 0 -> Unit(60 + i)
                            [] OTHER -> Zero]
Tau(kind) ==
  CASE kind = "none" -> Zero
    [] kind = "swap" -> One
    [] kind = "sign" -> IF cfg.cplx THEN <<<<2, 0>>, <<1, 1>>, <<1, -1>>>>[(Hash(4) % 3) + 1] ELSE <<2, 0>>
    [] OTHER -> IF cfg.cplx THEN <<<<1, 1>>, <<0, -1>>, <<1, 0>>, <<-1, 0>>>>[(Hash(4) % 4) + 1] ELSE <<<<1, 0>>, <<-1, 0>>>>[(Hash(4) % 2) + 1]

\* tau v (v^H C) subtracted
Reflect(r, C, cols) ==
  \* only the rows where v is not zero take part
  LET dom == {i \in 1..cfg.n : r.v[i] # Zero}
      w == TLCEval([j \in 1..cols |-> CMul(r.tau, Sum([i \in 1..cfg.n |-> IF i \in dom THEN CMul(Conj(r.v[i]), C[i][j]) ELSE Zero], 1, cfg.n))])
  IN  Mk(cfg.n, cols, LAMBDA i, j : IF i \in dom THEN CSub(C[i][j], CMul(r.v[i], w[j])) ELSE C[i][j])
Inner(x, y) == Sum([i \in 1..cfg.n |-> IF x[i] = Zero \/ y[i] = Zero THEN Zero ELSE CMul(Conj(x[i]), y[i])], 1, cfg.n)
\* the triangular factor with another reflector before the others: first row tau, - tau v^H V T
Grow(r) ==
  LET k == Len(refs)
      vv == TLCEval([i \in 1..k |-> Inner(r.v, refs[i].v)])
      row == TLCEval([j \in 1..k |-> Neg(CMul(r.tau, Sum([i \in 1..k |-> CMul(vv[i], t[i][j])], 1, k)))])
  IN  Mk(k + 1, k + 1, LAMBDA i, j : IF i = 1 THEN (IF j = 1 THEN r.tau ELSE row[j - 1]) ELSE IF j = 1 THEN Zero ELSE t[i - 1][j - 1])

Tracked == cfg.mode = 1 \/ Len(left) + Len(refs) <= 12
Apply == /\ left # <<>>
         /\ \E sl \in {left[Len(left)]} : \E kind \in {Kind(sl)} :
            \E r \in {[top |-> sl.top, len |-> sl.len, col |-> sl.col, tau |-> Tau(kind), v |-> TLCEval(Vector(sl, kind))]} :
              /\ c' = Reflect(r, c, cfg.m)
              /\ t' = IF Tracked THEN Grow(r) ELSE <<>>
              /\ refs' = <<r>> \o refs
              /\ wild' = IF kind = "wild" THEN wild + 1 ELSE wild
         /\ left' = SubSeq(left, 1, Len(left) - 1)
         /\ h' = Mix(h, 1) /\ UNCHANGED <<cfg, c0>>
Spec == Init /\ [][Apply]_vars

----------------------------------------------------------------------------
\* Q C = (I - V T V^H) C
CompactForm == Tracked => LET k == Len(refs)
    vc == TLCEval([i \in 1..k |-> TLCEval([j \in 1..cfg.m |-> Sum([l \in 1..cfg.n |-> CMul(Conj(refs[i].v[l]), c0[l][j])], 1, cfg.n)])])
    tvc == TLCEval([i \in 1..k |-> TLCEval([j \in 1..cfg.m |-> Sum([l \in 1..k |-> CMul(t[i][l], vc[l][j])], 1, k)])])
  IN  c = Mk(cfg.n, cfg.m, LAMBDA i, j : CSub(c0[i][j], Sum([l \in 1..k |-> CMul(refs[l].v[i], tvc[l][j])], 1, k)))
\* the column-wise recurrence: T(0:j, j) = - tau_j T(0:j, 0:j) V(:, 0:j)^H v_j, tau on the diagonal, zero below
ColumnForm == Tracked => LET k == Len(refs) IN
  \A j \in 1..k : /\ t[j][j] = refs[j].tau
                  /\ \A i \in 1..k : i > j => t[i][j] = Zero
                  /\ \A i \in 1..(j - 1) : t[i][j] = Neg(CMul(refs[j].tau, Sum([l \in 1..(j - 1) |-> CMul(t[i][l], Inner(refs[l].v, refs[j].v))], 1, j - 1)))
\* a reflector is 1 in its first row and lives in its rows
Shape == \A i \in 1..Len(refs) : /\ refs[i].top + refs[i].len <= cfg.n /\ refs[i].v[refs[i].top + 1] = One
                                 /\ \A l \in 1..cfg.n : (l <= refs[i].top \/ l > refs[i].top + refs[i].len) => refs[i].v[l] = Zero

Done == left = <<>>
\* Mode 3: the reflectors of b consecutive sweeps can be applied by rows of blocks instead of sweep by sweep
RECURSIVE ApplyAll(_, _, _)
ApplyAll(order, i, C) == IF i = 0 THEN C ELSE ApplyAll(order, i - 1, The({Reflect(order[i], x, cfg.m) : x \in {C}}))
RECURSIVE Filter(_, _, _)
Filter(lo, hi, row) == SelectSeq(refs, LAMBDA r : r.col \in lo..hi /\ (r.top - 1) \div cfg.b = row)
RECURSIVE Blocks(_, _)
Blocks(blk, row) == IF blk * cfg.b >= cfg.n THEN <<>>
  ELSE IF row < blk THEN Blocks(blk + 1, (cfg.n - 1) \div cfg.b)
  ELSE Filter(blk * cfg.b, blk * cfg.b + cfg.b - 1, row) \o Blocks(blk, row - 1)
Regroup == Done /\ cfg.mode = 3 /\ cfg.n \in 1..14 /\ cfg.m > 0 =>
  \E order \in {Blocks(0, (cfg.n - 1) \div cfg.b)} : Len(order) = Len(refs) /\ ApplyAll(order, Len(order), c0) = c

Small == Done => \A i \in 1..cfg.n : \A j \in 1..cfg.m : c[i][j][1] \in -1000000..1000000 /\ c[i][j][2] \in -1000000..1000000
B01(b) == IF b THEN 1 ELSE 0
Emit == Done =>
  PrintT(<<"W", cfg.seed, cfg.mode, cfg.n, cfg.m, cfg.nb, cfg.w, cfg.b, cfg.k, cfg.row, cfg.col, B01(cfg.dist), cfg.P, cfg.Q, cfg.sr, cfg.sc,
           B01(cfg.cplx), cfg.hhg, cfg.thr, Len(refs), [i \in 1..Len(refs) |-> <<refs[i].top, refs[i].len, refs[i].col, refs[i].tau, SubSeq(refs[i].v, refs[i].top + 1, refs[i].top + refs[i].len)>>],
           IF cfg.mode = 1 THEN t ELSE <<>>, c0, c>>)
=============================================================================
