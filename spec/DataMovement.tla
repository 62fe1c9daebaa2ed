------------------------------- MODULE DataMovement -------------------------------
(* The library's operations that move or set elements without computing with them:  *)
(* copies between matrices, sub-matrices and distributions, permutations, element   *)
(* setters, and the max norms that read them.                                       *)
(*                                                                                  *)
(* State: the contents of four matrix registers (1, 2: same distribution; 3: same   *)
(* size, other tiles and source rank; 4: larger, same tiles as 1).  A transition is *)
(* a call; its effect on the elements is its definition, everything else stays.     *)
(* A behaviour is a function of its seed.                                           *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Seeds, Table, Depth, NMax, Grids, Square

VARIABLES h, cfg, reg, init, rnd, tries, calls
vars == <<h, cfg, reg, init, rnd, tries, calls>>

Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Hash(k) == Mix(h, k)
Pick(s, k) == s[(Hash(k) % Len(s)) + 1]
MixIJ(a, i, j) == Mix(Mix(a, i * 61 + 7), j * 89 + 3)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

(* elements have one nonzero component, so that their magnitude is exact *)
Elem(x, cplx) == LET v == (x % 20011) - 10005 IN IF cplx /\ (x % 2) = 0 THEN <<0, v>> ELSE <<v, 0>>
Mag(z) == Abs(z[1]) + Abs(z[2])
Mk(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])

\* sizes and tiles of the registers
Dim(x, c) == IF x = 4 THEN <<c.n + c.e1, c.m + c.e2>> ELSE <<c.n, c.m>>
Tile(x, c) == IF x = 3 THEN <<c.t3r, c.t3c>> ELSE <<c.tr, c.tc>>
Src(x, c) == IF x = 3 THEN <<c.s3r, c.s3c>> ELSE <<c.sr, c.sc>>
Ceil(a, b) == (a + b - 1) \div b

InitOne(s) ==
  LET n == Mix(s, 2) % (NMax + 1)
      m == IF Square THEN n ELSE Mix(s, 3) % (NMax + 1)
      g == Grids[(Mix(s, 4) % Len(Grids)) + 1]
      P == Max(1, g[1]) Q == Max(1, g[2])
      cplx == (\A k \in 1..Len(Table) : Table[k] \notin {14, 16}) /\ (Mix(s, 5) % 2) = 1
      \* a tile size and a related one: equal, multiple or divisor
      pair(k) == (<<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<1, 3>>, <<2, 4>>, <<2, 6>>, <<4, 2>>, <<3, 1>>, <<6, 2>>, <<4, 1>>, <<5, 5>>, <<2, 1>>>>)[(Mix(s, k) % 13) + 1]
      pr == pair(6) pc == IF Square THEN pr ELSE pair(7)
      C == [seed |-> s, n |-> n, m |-> m, e1 |-> Mix(s, 11) % 6, e2 |-> IF Square THEN Mix(s, 11) % 6 ELSE Mix(s, 12) % 6,
            tr |-> pr[1], tc |-> pc[1], t3r |-> pr[2], t3c |-> pc[2], P |-> P, Q |-> Q,
            sr |-> Mix(s, 13) % P, sc |-> Mix(s, 14) % Q, s3r |-> Mix(s, 15) % P, s3c |-> Mix(s, 16) % Q,
            dist |-> g /= <<0, 0>>, cplx |-> cplx]
      R == TLCEval([x \in 1..4 |-> Mk(Dim(x, C)[1], Dim(x, C)[2], LAMBDA i, j : Elem(MixIJ((s % 4001) + 100 * x, i, j), cplx))])
  IN  /\ cfg = C /\ reg = R /\ init = R
      /\ rnd = [x \in 1..4 |-> 0]
      /\ h = Mix(s, 77) /\ tries = 0 /\ calls = <<>>

Init == \E s \in Seeds : InitOne(s)

Rows(x) == Dim(x, cfg)[1]
Cols(x) == Dim(x, cfg)[2]
TR(x) == Tile(x, cfg)[1]
TC(x) == Tile(x, cfg)[2]
NTR(x) == Ceil(Rows(x), TR(x))
NTC(x) == Ceil(Cols(x), TC(x))
OwnerR(x, i) == ((i \div TR(x)) + Src(x, cfg)[1]) % cfg.P     \* of the element row i (from zero)
OwnerC(x, j) == ((j \div TC(x)) + Src(x, cfg)[2]) % cfg.Q

Record(t) == calls' = Append(calls, t)
Keep == UNCHANGED <<cfg, init>>
Put(x, M) == reg' = TLCEval([reg EXCEPT ![x] = M]) /\ UNCHANGED rnd /\ Keep
Plain(S) == \A x \in S : rnd[x] = 0
\* replace the block of r x c elements at (i0, j0) (from zero) of register y by B(i, j), i, j from one
Paste(y, i0, j0, r, c, B(_, _)) ==
  Mk(Rows(y), Cols(y), LAMBDA i, j : IF i > i0 /\ i <= i0 + r /\ j > j0 /\ j <= j0 + c THEN B(i - i0, j - j0) ELSE reg[y][i][j])

----------------------------------------------------------------------------
(* 10: copy of a whole matrix, same distribution *)
Copy(x, y) ==
  /\ Plain({x, y})
  /\ Put(y, reg[x])
  /\ Record(<<10, 2, x, y>>)

(* 11: copy of a rectangle of local tiles.  The k-th local row of tiles on grid row p is global tile row
   ((p - src) mod P) + k P. *)
GTile(x, p, k, P, s) == ((p - s) % P) + k * P
LocCount(nt, p, P, s) == LET f == (p - s) % P IN IF f >= nt THEN 0 ELSE ((nt - 1 - f) \div P) + 1
Ext(sz, t, g) == IF g * t >= sz THEN 0 ELSE Min(t, sz - g * t)
\* is the local range [a, a + len) of x matched tile by tile by [b, b + len) of y, on every process of this direction?
LocOk(szx, szy, t, P, s, a, b, len) ==
  \A p \in 0..(P - 1) :
    /\ a + len <= LocCount(Ceil(szx, t), p, P, s) /\ b + len <= LocCount(Ceil(szy, t), p, P, s)
    /\ \A k \in 0..(len - 1) : Ext(szx, t, GTile(0, p, a + k, P, s)) = Ext(szy, t, GTile(0, p, b + k, P, s))
\* the source element of element e (from zero) of y, or -1
LocSrc(e, t, P, s, a, b, len) ==
  LET g == e \div t p == (g + s) % P k == g \div P IN
  IF k >= b /\ k < b + len THEN GTile(0, p, a + (k - b), P, s) * t + (e % t) ELSE -1
CopyLocal(x, y, ar, ac, br, bc, lr, lc) ==
  /\ x # y \/ (ar = br /\ ac = bc)
  /\ Plain({x, y})
  /\ LocOk(Rows(x), Rows(y), cfg.tr, cfg.P, cfg.sr, ar, br, lr)
  /\ LocOk(Cols(x), Cols(y), cfg.tc, cfg.Q, cfg.sc, ac, bc, lc)
  /\ Put(y, Mk(Rows(y), Cols(y), LAMBDA i, j :
        LET a == LocSrc(i - 1, cfg.tr, cfg.P, cfg.sr, ar, br, lr) b == LocSrc(j - 1, cfg.tc, cfg.Q, cfg.sc, ac, bc, lc) IN
        IF a < 0 \/ b < 0 THEN reg[y][i][j] ELSE reg[x][a + 1][b + 1]))
  /\ Record(<<11, 8, x, y, ar, ac, br, bc, lr, lc>>)

(* 12: copy of a sub-matrix to a sub-matrix with the same tiling *)
CopyRef(x, y, i0, j0, i1, j1, r, c) ==
  /\ x # y /\ Plain({x, y})
  /\ (i0 % cfg.tr) = (i1 % cfg.tr) /\ (j0 % cfg.tc) = (j1 % cfg.tc)
  /\ OwnerR(x, i0) = OwnerR(y, i1) /\ OwnerC(x, j0) = OwnerC(y, j1)
  /\ i0 + r <= Rows(x) /\ i1 + r <= Rows(y) /\ j0 + c <= Cols(x) /\ j1 + c <= Cols(y)
  /\ Put(y, Paste(y, i1, j1, r, c, LAMBDA i, j : reg[x][i0 + i][j0 + j]))
  /\ Record(<<12, 8, x, y, i0, j0, i1, j1, r, c>>)

(* 13: redistribution *)
Redist(x, y) ==
  /\ cfg.dist /\ x # y /\ x \in 1..3 /\ y \in 1..3 /\ Plain({x, y})
  /\ Put(y, reg[x])
  /\ Record(<<13, 2, x, y>>)

(* 14, 15: permutation of the columns (rows) of the diagonal block of tiles [ib, ie): position k takes perm[k] *)
RECURSIVE Insert(_, _, _)
\* a permutation of 0..len-1 by repeated insertion
Insert(len, k, acc) ==
  IF k > len THEN acc
  ELSE LET p == Hash(300 + k) % k IN Insert(len, k + 1, SubSeq(acc, 1, p) \o <<k - 1>> \o SubSeq(acc, p + 1, k - 1))
Swap(len) == [k \in 1..len |-> IF len >= 2 /\ k = 1 + (Hash(301) % len) THEN (Hash(302) % len)
                              ELSE IF len >= 2 /\ k = 1 + (Hash(302) % len) THEN (Hash(301) % len) ELSE k - 1]
Perm(len) == CASE (Hash(299) % 5) = 0 -> [k \in 1..len |-> k - 1]
               [] (Hash(299) % 5) = 1 -> [k \in 1..len |-> (k + Hash(301)) % len]
               [] (Hash(299) % 5) = 2 -> Swap(len)
               [] OTHER -> Insert(len, 1, <<>>)
Bytes(b, e, len) == LET a == Min(len, b * cfg.tr) z == Min(len, e * cfg.tr) IN <<a, z - a>>
PermBody(y, x, col, b, len, perm) ==
  Paste(y, b, b, len, len, LAMBDA i, j : IF col THEN reg[x][b + i][b + perm[j] + 1] ELSE reg[x][b + perm[i] + 1][b + j])
\* the permutation as a vector of n indices; entries outside of the range are never looked at
Full(b, len, perm, n) == [k \in 1..n |-> IF k > b /\ k <= b + len THEN perm[k - b] ELSE -777]
Permute(x, y, col, ib, ie) ==
  LET be == Bytes(ib, ie, cfg.n) perm == Perm(be[2]) IN
  /\ x # y /\ Plain({x, y})
  /\ Assert(\A i, j \in 1..be[2] : perm[i] = perm[j] => i = j, "not a permutation")
  /\ Put(y, PermBody(y, x, col, be[1], be[2], perm))
  /\ Record(<<14, 5 + cfg.n, x, y, IF col THEN 1 ELSE 0, ib, ie>> \o Full(be[1], be[2], perm, cfg.n))

(* 16: every process permutes its own part of a distributed matrix, by its own permutation of local positions *)
LocElems(p, P, s, b, e) == \* global positions (from zero) in [b, e) owned by p, ascending
  SelectSeq([k \in 1..(e - b) |-> b + k - 1], LAMBDA g : (((g \div cfg.tr) + s) % P) = p)
PosIn(seq, g) == CHOOSE k \in 1..Len(seq) : seq[k] = g
\* the k-th position of a process takes the (k + shift)-th, or the mirrored one
PLocal(len, w) == [k \in 1..len |-> IF (Hash(310 + w) % 3) = 0 THEN len - k ELSE (k + Hash(320 + w)) % len]
PermLocal(x, y, col, ib, ie) ==
  LET be == Bytes(ib, ie, cfg.n)
      W == cfg.P * cfg.Q
      s == IF col THEN cfg.sc ELSE cfg.sr
      PP == IF col THEN cfg.Q ELSE cfg.P
      coord(w) == IF col THEN w % cfg.Q ELSE w \div cfg.Q
      els == TLCEval([w \in 1..W |-> LocElems(coord(w - 1), PP, s, be[1], be[1] + be[2])])
      before == TLCEval([w \in 1..W |-> Len(LocElems(coord(w - 1), PP, s, 0, be[1]))])
      all == TLCEval([w \in 1..W |-> Len(LocElems(coord(w - 1), PP, s, 0, cfg.n))])
      perms == TLCEval([w \in 1..W |-> PLocal(Len(els[w]), w)])
      owner(i, j) == OwnerR(1, i - 1) * cfg.Q + OwnerC(1, j - 1) + 1
      from(w, g) == els[w][perms[w][PosIn(els[w], g)] + 1] + 1
      flat == [w \in 1..W |-> [k \in 1..all[w] |-> IF k > before[w] /\ k <= before[w] + Len(els[w]) THEN perms[w][k - before[w]] ELSE -777]]
      RECURSIVE Cat(_)
      Cat(w) == IF w > W THEN <<>> ELSE <<all[w]>> \o flat[w] \o Cat(w + 1)
      tail == Cat(1)
  IN /\ x # y /\ Plain({x, y})
     /\ Put(y, Paste(y, be[1], be[1], be[2], be[2], LAMBDA i, j :
           LET w == owner(be[1] + i, be[1] + j) IN
           IF col THEN reg[x][be[1] + i][from(w, be[1] + j - 1)] ELSE reg[x][from(w, be[1] + i - 1)][be[1] + j]))
     /\ Record(<<16, 5 + Len(tail), x, y, IF col THEN 1 ELSE 0, ib, ie>> \o tail)

----------------------------------------------------------------------------
(* 17: set to a function of the global position; 18: zero a rectangle of local tiles; 19: identity *)
Conj(z) == <<z[1], -z[2]>>
F(i, j, a) == LET v == a + 7 * i - 3 * j IN IF cfg.cplx /\ ((i + j) % 2) = 1 THEN <<0, v>> ELSE <<v, 0>>   \* i, j from zero
Set(x, op, a) ==
  /\ Plain({x})
  /\ Put(x, Mk(Rows(x), Cols(x), LAMBDA i, j : CASE op = 0 -> F(i - 1, j - 1, a) [] op = 1 -> F(j - 1, i - 1, a) [] op = 2 -> Conj(F(j - 1, i - 1, a))))
  /\ Record(<<17, 3, x, op, a>>)
\* clip: on a process with fewer tiles the rectangle is cut
Set0(x, ar, ac, lr, lc) ==
  LET in(e, t, P, s, nt, a, len) == LET g == e \div t p == (g + s) % P k == g \div P IN k >= a /\ k < a + len IN
  /\ Plain({x})
  /\ Put(x, Mk(Rows(x), Cols(x), LAMBDA i, j :
        IF in(i - 1, TR(x), cfg.P, Src(x, cfg)[1], NTR(x), ar, lr) /\ in(j - 1, TC(x), cfg.Q, Src(x, cfg)[2], NTC(x), ac, lc) THEN <<0, 0>> ELSE reg[x][i][j]))
  /\ Record(<<18, 5, x, ar, ac, lr, lc>>)
SetId(x) ==
  /\ Plain({x})
  /\ Put(x, Mk(Rows(x), Cols(x), LAMBDA i, j : IF i = j THEN <<1, 0>> ELSE <<0, 0>>))
  /\ Record(<<19, 1, x>>)

(* 20: max norm of the matrix (0) or of its lower triangle (1), on rank (p, q) *)
RECURSIVE MaxOver(_, _)
MaxOver(s, k) == IF k = 0 THEN 0 ELSE Max(s[k], MaxOver(s, k - 1))
NormOf(x, lower) ==
  MaxOver(TLCEval([i \in 1..Rows(x) |-> MaxOver(TLCEval([j \in 1..Cols(x) |-> IF lower /\ j > i THEN 0 ELSE Mag(reg[x][i][j])]), Cols(x))]), Rows(x))
Norm(x, lower, p, q) ==
  /\ cfg.dist /\ Plain({x})
  /\ lower => Rows(x) = Cols(x) /\ TR(x) = TC(x)
  /\ UNCHANGED <<reg, rnd>> /\ Keep
  /\ Record(<<20, 5, x, IF lower THEN 1 ELSE 0, p, q, NormOf(x, lower)>>)

(* 21: the random setters.  Their values are an uninterpreted function of the size, the tile size and the position (and of
   the setter): the register is marked and no longer used. *)
Random(x, kind, band) ==
  /\ Plain({x})
  /\ kind # 0 => (Rows(x) = Cols(x) /\ TR(x) = TC(x))
  /\ rnd' = [rnd EXCEPT ![x] = kind + 1]
  /\ UNCHANGED reg /\ Keep
  /\ Record(<<21, 3, x, kind, band>>)

----------------------------------------------------------------------------
Reg3(k) == 1 + (Hash(k) % 3)
Reg4(k) == 1 + (Hash(k) % 4)
Ref(k) == (<<1, 2, 4>>)[(Hash(k) % 3) + 1]
Rect(nt, P, k) == LET a == Hash(k) % (Ceil(nt, P) + 1) IN <<a, Hash(k + 1) % (Ceil(nt, P) - a + 1)>>

\* a range of local tiles that all processes have, in both registers, as often as not of any length
Common(ntx, nty, P, k) ==
  LET c == Min(ntx, nty) \div P
      all == IF Hash(k + 1) % 4 = 0 /\ ntx = nty THEN Ceil(ntx, P) ELSE c
      a == IF all = 0 THEN 0 ELSE Hash(k) % all
      len == IF all = 0 THEN 0 ELSE IF Hash(k + 2) % 3 = 0 THEN all - a ELSE 1 + (Hash(k + 3) % (all - a))
  IN  <<a, len, IF Hash(k + 4) % 2 = 0 THEN a ELSE Hash(k + 5) % (Max(0, (nty \div P) - len) + 1)>>
CopyLocalStep ==
  LET x == Ref(201) y == Ref(202)
      r == Common(NTR(x), NTR(y), cfg.P, 203) c == Common(NTC(x), NTC(y), cfg.Q, 213)
  IN CopyLocal(x, y, r[1], c[1], r[3], c[3], r[2], c[2])
\* start in x, start in y (the same modulo tP, where the owners are the same), extent
Piece(lx, ly, tP, k) ==
  LET i0 == IF lx = 0 THEN 0 ELSE Hash(k) % lx
      most == Min(lx - i0, Max(0, ly - (i0 % tP)))
      r == IF most = 0 THEN 0 ELSE IF Hash(k + 1) % 3 = 0 THEN most ELSE 1 + (Hash(k + 2) % most)
      room == Max(0, ly - r - (i0 % tP)) \div tP
  IN  <<i0, IF most = 0 /\ (i0 % tP) > ly THEN i0 ELSE (i0 % tP) + tP * (Hash(k + 3) % (room + 1)), r>>
CopyRefStep ==
  LET x == Ref(201) y == Ref(202)
      r == Piece(Rows(x), Rows(y), cfg.tr * cfg.P, 221) c == Piece(Cols(x), Cols(y), cfg.tc * cfg.Q, 231)
  IN CopyRef(x, y, r[1], c[1], r[2], c[2], r[3], c[3])
TileRange == LET nt == NTR(1) a == Hash(220) % (nt + 1) IN <<a, a + (Hash(221) % (nt - a + 1))>>
Mostly(k) == IF Hash(k) % 3 = 0 THEN <<0, NTR(1)>> ELSE TileRange
X12 == 1 + (Hash(223) % 2)
PermStep == LET t == Mostly(222) IN Permute(X12, 3 - X12, Hash(224) % 2 = 0, t[1], t[2])
PermLocalStep == LET t == Mostly(222) IN PermLocal(X12, 3 - X12, Hash(224) % 2 = 0, t[1], t[2])

Call(code) ==
  CASE code = 10 -> LET x == X12 IN Copy(x, IF Hash(201) % 8 = 0 THEN x ELSE 3 - x)
    [] code = 11 -> CopyLocalStep
    [] code = 12 -> CopyRefStep
    [] code = 13 -> Redist(Reg3(201), Reg3(202))
    [] code = 14 -> PermStep
    [] code = 16 -> PermLocalStep
    [] code = 17 -> Set(Reg4(201), Hash(202) % 3, (Hash(203) % 100) - 50)
    [] code = 18 -> LET x == Reg4(201) r == Rect(NTR(x), cfg.P, 203) c == Rect(NTC(x), cfg.Q, 205) IN
                    IF Hash(202) % 3 = 0 THEN Set0(x, 0, 0, NTR(x), NTC(x)) ELSE Set0(x, r[1], c[1], r[2], c[2])
    [] code = 19 -> SetId(Reg4(201))
    [] code = 20 -> Norm(Reg4(201), Hash(202) % 2 = 0, Hash(203) % cfg.P, Hash(204) % cfg.Q)
    [] code = 21 -> Random(Reg4(201), Hash(202) % 5, Hash(203) % 6)

Tries == 20
Next == /\ Len(calls) < Depth /\ tries < Tries
        /\ h' = Mix(h, tries + 200)
        /\ LET code == Pick(Table, 100) IN
           IF ENABLED Call(code) THEN Call(code) /\ UNCHANGED tries
           ELSE tries' = tries + 1 /\ UNCHANGED <<cfg, reg, init, rnd, calls>>
Spec == Init /\ [][Next]_vars

Done == Len(calls) = Depth \/ tries = Tries
B01(b) == IF b THEN 1 ELSE 0
Emit == (Done /\ calls # <<>>) =>
  PrintT(<<"M", cfg.seed, cfg.n, cfg.m, cfg.e1, cfg.e2, cfg.tr, cfg.tc, cfg.t3r, cfg.t3c, cfg.P, cfg.Q, cfg.sr, cfg.sc, cfg.s3r, cfg.s3c, B01(cfg.dist), B01(cfg.cplx),
           Len(calls), calls, [x \in 1..4 |-> init[x]], rnd, [x \in 1..4 |-> reg[x]]>>)
==================================================================================
