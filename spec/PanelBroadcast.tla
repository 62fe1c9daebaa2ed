--------------------------- MODULE PanelBroadcast ---------------------------
(* Handing the tiles of a panel over to everybody who needs them.

   A square matrix of n x n elements in tiles of B is dealt to a P x Q grid, the first tile to seat <<sr, sc>>.
   A panel follows the rows (axis 0, a column panel) or the columns (axis 1) of the matrix: a seat holds the tiles
   of its own rows.  In a round the seats of one column (row) of the grid, the root, have the tiles of a range; after
   the round all seats have the tiles of their rows and, on request, all seats have the tiles of their columns, too
   (the transposed panel): tile g of the transposed panel is tile g of the panel.

   How it is done: every row of the grid hands the tiles over within the row; then, within every column, the seat
   that is on the diagonal hands the tile over.  Rows and columns work independently, each in the order of its
   requests; nobody waits for a round to be over.

   Seats, rows and columns are named as for axis 0; axis 1 is the mirror image (done by swapping P, Q and so on). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Confs,       \* of the protocol model: set of <<N, P, Q, S, ST>>: tiles, grid, first seat along the panel and across
          Plans,       \* sequences of rounds <<a, b, aT, bT, root>> (aT > bT: no transposed panel)
          Seeds, Depth, NMax, Grids, Mode
VARIABLES c, plan,     \* the protocol: configuration and rounds
          posted1, posted2,  \* seat -> how many operations it has posted in its row, in its column
          have, haveT        \* seat -> function from <<round, tile>> to value
vars == <<c, plan, posted1, posted2, have, haveT>>

Own(g, s, p) == (g + s) % p
\* the tiles x..y-1 dealt to hand r, in order
Mine(x, y, s, p, r) == SelectSeq([i \in 1..(IF y > x THEN y - x ELSE 0) |-> x + i - 1], LAMBDA g : Own(g, s, p) = r)
RECURSIVE Concat(_, _)
Concat(f(_), k) == IF k = 0 THEN <<>> ELSE Concat(f, k - 1) \o f(k)
----------------------------------------------------------------------------
N == c[1]
P == c[2]
Q == c[3]
S == c[4]
ST == c[5]
Seat == (0..(P - 1)) \X (0..(Q - 1))
\* what a seat posts in its row: <<round, tile, root>>
Ops1(s) == Concat(LAMBDA k : LET m == Mine(plan[k][1], plan[k][2], S, P, s[1]) IN [i \in 1..(IF Q > 1 THEN Len(m) ELSE 0) |-> <<k, m[i], plan[k][5]>>], Len(plan))
Ops2(s) == Concat(LAMBDA k : LET m == Mine(plan[k][3], plan[k][4], ST, Q, s[2]) IN [i \in 1..(IF P > 1 THEN Len(m) ELSE 0) |-> <<k, m[i], Own(m[i], S, P)>>], Len(plan))
Value(k, g) == 100 * k + g
None == [x \in {} |-> 0]
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* what a seat has from the beginning: the tiles it is the root of
Own0(s) == LET D == {<<k, g>> \in (1..Len(plan)) \X (0..N) : g >= plan[k][1] /\ g < plan[k][2] /\ Own(g, S, P) = s[1] /\ plan[k][5] = s[2]}
           IN [x \in D |-> Value(x[1], x[2])]
Init == /\ Mode = "protocol"
        /\ c \in Confs /\ plan \in {q \in Plans : \A k \in 1..Len(q) : q[k][2] <= N /\ q[k][4] <= q[k][2] /\ q[k][3] >= q[k][1] /\ q[k][5] < Q}
        /\ posted1 = [s \in Seat |-> 0] /\ posted2 = [s \in Seat |-> 0]
        /\ have = [s \in Seat |-> Own0(s)] /\ haveT = [s \in Seat |-> None]
\* the root of an operation posts it when it has the tile; the others whenever they like, after their earlier ones
Post1(s) == /\ posted1[s] < Len(Ops1(s))
            /\ posted1' = [posted1 EXCEPT ![s] = @ + 1] /\ UNCHANGED <<c, plan, posted2, have, haveT>>
\* links the tile of the diagonal
Link(s) == \E k \in 1..Len(plan) : \E g \in plan[k][3]..(plan[k][4] - 1) :
            /\ Own(g, S, P) = s[1] /\ Own(g, ST, Q) = s[2] /\ <<k, g>> \in DOMAIN have[s] /\ <<k, g>> \notin DOMAIN haveT[s]
            /\ haveT' = [haveT EXCEPT ![s] = Put(@, <<k, g>>, have[s][<<k, g>>])]
            /\ UNCHANGED <<c, plan, posted1, posted2, have>>
Post2(s) == /\ posted2[s] < Len(Ops2(s))
            /\ LET o == Ops2(s)[posted2[s] + 1] IN o[3] = s[1] => <<o[1], o[2]>> \in DOMAIN haveT[s]
            /\ posted2' = [posted2 EXCEPT ![s] = @ + 1] /\ UNCHANGED <<c, plan, posted1, have, haveT>>
\* the i-th operation of a seat in its row meets the i-th operation of the root in this row
Arrive1(s) == \E i \in 1..posted1[s] :
               LET o == Ops1(s)[i] r == <<s[1], o[3]>> IN
               /\ r /= s /\ <<o[1], o[2]>> \notin DOMAIN have[s] /\ posted1[r] >= i
               /\ have' = [have EXCEPT ![s] = Put(@, <<o[1], o[2]>>, have[r][<<Ops1(r)[i][1], Ops1(r)[i][2]>>])]
               /\ UNCHANGED <<c, plan, posted1, posted2, haveT>>
Arrive2(s) == \E i \in 1..posted2[s] :
               LET o == Ops2(s)[i] r == <<o[3], s[2]>> IN
               /\ r /= s /\ <<o[1], o[2]>> \notin DOMAIN haveT[s] /\ posted2[r] >= i
               /\ haveT' = [haveT EXCEPT ![s] = Put(@, <<o[1], o[2]>>, haveT[r][<<Ops2(r)[i][1], Ops2(r)[i][2]>>])]
               /\ UNCHANGED <<c, plan, posted1, posted2, have>>
Next == \E s \in Seat : Post1(s) \/ Post2(s) \/ Link(s) \/ Arrive1(s) \/ Arrive2(s)
\* what a seat must have in the end
Due(s) == {<<k, g>> \in (1..Len(plan)) \X (0..N) : g >= plan[k][1] /\ g < plan[k][2] /\ Own(g, S, P) = s[1]}
DueT(s) == {<<k, g>> \in (1..Len(plan)) \X (0..N) : g >= plan[k][3] /\ g < plan[k][4] /\ Own(g, ST, Q) = s[2]}
Right == \A s \in Seat : /\ \A x \in DOMAIN have[s] : have[s][x] = Value(x[1], x[2])
                         /\ \A x \in DOMAIN haveT[s] : haveT[s][x] = Value(x[1], x[2])
                         /\ DOMAIN have[s] \subseteq Due(s) /\ DOMAIN haveT[s] \subseteq DueT(s)
\* the seats of a row (column) agree on what they do together
Agree == \A s, t \in Seat : (s[1] = t[1] => Ops1(s) = Ops1(t)) /\ (s[2] = t[2] => Ops2(s) = Ops2(t))
\* nothing is left to do only if everybody has everything
Done == (\A s \in Seat : DOMAIN have[s] = Due(s) /\ DOMAIN haveT[s] = DueT(s) /\ posted1[s] = Len(Ops1(s)) /\ posted2[s] = Len(Ops2(s)))
NoDeadlock == ENABLED Next \/ Done
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* Behaviours for the replay, a function of their seed: rounds with two workspaces in turn or repeatedly, and what
   every seat has to read in the end.  Here elements count, too: the range may start inside a tile. *)
Mix(a, b) == LET x == (a * 31 + b * 1009 + 17) % 40009
                 y == (x * x + b) % 40009
             IN  (y * y + x) % 40009
Ceil(a, b) == (a + b - 1) \div b
Lesser(a, b) == IF a < b THEN a ELSE b
RoundOf(s, C, k) ==
  LET h == Mix(s, 100 + k)
      r(i) == Mix(h, i)
      nt == Ceil(C.n, C.B)
      a == C.bias + (r(1) % (nt - C.bias + 1))
      full == r(9) % 3 > 0
      b == IF full THEN nt ELSE a + (r(2) % (nt - a + 1))
      two == r(3) % 4 > 0
      aT == a + (IF r(4) % 2 = 0 THEN Lesser(r(4) % 3, b - a) ELSE r(4) % (b - a + 1))
      bT == IF r(5) % 2 = 0 THEN b ELSE aT + (r(5) % (b - aT + 1))
      first == Lesser(C.B, C.n - a * C.B)
      cut == IF a < nt /\ a < b /\ r(6) % 3 = 0 THEN r(7) % first ELSE 0
      \* the transposed panel has to have tiles of the same size: a panel that starts inside of a tile cannot start there
      dim == IF r(8) % 3 = 0 THEN 1 + (r(8) % C.B) ELSE -1
  IN [ws |-> r(10) % 2, a |-> a, cut |-> cut, b |-> b, two |-> two, aT |-> aT, bT |-> bT, root |-> r(11) % C.Q, dim |-> dim,
      ext |-> r(12)]
ConfOf(s) ==
  LET g == Grids[(Mix(s, 4) % Len(Grids)) + 1]
      B == 1 + (Mix(s, 5) % 4)
      n == 1 + (Mix(s, 2) % NMax)
      axis == Mix(s, 6) % 2
      nt == Ceil(n, B)
  IN [seed |-> s, axis |-> axis, n |-> n, B |-> B, P |-> g[1], Q |-> g[2], S |-> Mix(s, 7) % g[1], ST |-> Mix(s, 8) % g[2],
      bias |-> IF Mix(s, 9) % 3 = 0 THEN Mix(s, 10) % nt ELSE 0, full |-> n % B = 0]
Count(x, s, p, r) == Cardinality({g \in 0..(x - 1) : Own(g, s, p) = r})
Size(C, R, g) == Lesser(C.B, C.n - g * C.B) - (IF g = R.a THEN R.cut ELSE 0)
\* what seat <<i, j>> reads after round k: local index, value, rows
Reads(C, R, k, i, j) == LET m == Mine(R.a, R.b, C.S, C.P, i) IN [x \in 1..Len(m) |-> <<Count(m[x], C.S, C.P, i), Value(k, m[x]), Size(C, R, m[x])>>]
ReadsT(C, R, k, i, j) == LET m == IF R.two THEN Mine(R.aT, R.bT, C.ST, C.Q, j) ELSE <<>> IN [x \in 1..Len(m) |-> <<Count(m[x], C.ST, C.Q, j), Value(k, m[x]), Size(C, R, m[x])>>]
Table(C, R, k) == FlattenSeq([z \in 1..(C.P * C.Q) |->
    LET i == (z - 1) \div C.Q j == (z - 1) % C.Q u == Reads(C, R, k, i, j) v == ReadsT(C, R, k, i, j)
    IN <<Len(u)>> \o FlattenSeq(u) \o <<Len(v)>> \o FlattenSeq(v)])
Behaviour(s) ==
  LET C == ConfOf(s)
      rs == [k \in 1..Depth |-> RoundOf(s, C, k)]
  IN PrintT(<<"B", s, C.axis, C.n, C.B, C.P, C.Q, C.S, C.ST, C.bias, Depth,
              FlattenSeq([k \in 1..Depth |-> LET R == rs[k] IN <<R.ws, R.a, R.cut, R.b, IF R.two THEN 1 ELSE 0, R.aT, R.bT, R.root, R.dim, R.ext>> \o Table(C, R, k)])>>)
GenInit == c \in Seeds /\ plan = <<>> /\ posted1 = 0 /\ posted2 = 0 /\ have = 0 /\ haveT = 0
GenSpec == GenInit /\ [][FALSE]_vars
Emit == Behaviour(c)
=============================================================================
