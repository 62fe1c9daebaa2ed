---------------------------- MODULE TileAccess ----------------------------
(* The tiles of a matrix, the views of the matrix, and the accesses to tiles and to parts of tiles.

   The local part of a matrix is LR x LC elements, cut into tiles of (at most) TR x TC.  Every tile is
   behind a pipeline: a queue of turns, where a turn is a set of readers or one writer.  A view (a
   sub-pipelined or retiled matrix) takes a writer's turn in the pipeline of every tile it covers; its own
   pipelines, one for each of its tiles, work on the pieces of the parent's tile while that turn is on,
   and the turn ends when all of these pipelines are closed and empty.

   An access consists of parts.  It starts as one part that covers the whole tile; a part that was not
   started yet may be cut into smaller parts (a reader keeps the original too), copied (readers), or
   turned from a writer into readers.  Parts are started, granted and released one by one; the access is
   over when all of its parts are gone.  Each part records what it saw: for each of its elements, the
   part that wrote it last.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS LR, LC, TR, TC,   \* local elements, tile size
          Depth, EmitDepth, MaxMat, MaxAcc, MaxPart,
          Refs,             \* sequence of <<row, col, rows, cols>>: sub-matrices used as matrix references
          Factors,          \* set of <<rows, cols>>: how many tiles a block is cut into by retiling
          Ops               \* which actions take part
VARIABLES s, hist
vars == <<s, hist>>

Ceil(a, b) == (a + b - 1) \div b
Minn(a, b) == IF a < b THEN a ELSE b
Maxx(a, b) == IF a > b THEN a ELSE b
\* regions: <<first row, first column, rows, columns>>
Cells(g) == {<<i, j>> : i \in g[1]..(g[1] + g[3] - 1), j \in g[2]..(g[2] + g[4] - 1)}
Empty(g) == g[3] = 0 \/ g[4] = 0
Clip(g, h) == LET r == Maxx(g[1], h[1])  c == Maxx(g[2], h[2])
                  n == Minn(g[1] + g[3], h[1] + h[3]) - r
                  m == Minn(g[2] + g[4], h[2] + h[4]) - c
              IN <<r, c, Maxx(n, 0), Maxx(m, 0)>>
Whole == <<0, 0, LR, LC>>
\* the tiles a region is cut into by tiles of tr x tc that start at the origin of the matrix, column by column
TileReg(i, j, tr, tc, g) == Clip(<<i * tr, j * tc, tr, tc>>, g)
Rows(g, tr) == IF Empty(g) THEN 0 ELSE Ceil(g[1] + g[3], tr) - (g[1] \div tr)
Cols(g, tc) == IF Empty(g) THEN 0 ELSE Ceil(g[2] + g[4], tc) - (g[2] \div tc)
Tiles(g, tr, tc) ==
  LET nr == Rows(g, tr)  nc == Cols(g, tc)
  IN [k \in 1..(nr * nc) |-> TileReg((g[1] \div tr) + ((k - 1) % nr), (g[2] \div tc) + ((k - 1) \div nr), tr, tc, g)]

Pipe(e, g) == [entry |-> e, reg |-> g, open |-> TRUE, q |-> <<>>, last |-> "W"]
Mat0 == LET ts == Tiles(Whole, TR, TC)
        IN [mat |-> <<[pipes |-> [k \in 1..Len(ts) |-> k], reg |-> Whole, tr |-> TR, tc |-> TC, const |-> FALSE, open |-> TRUE]>>,
            pipe |-> [k \in 1..Len(ts) |-> Pipe(0, ts[k])],
            acc |-> <<>>, part |-> <<>>, val |-> [x \in Cells(Whole) |-> 0]]
Init == s = Mat0 /\ hist = <<>>

PartsOf(t, a) == {l \in 1..Len(t.part) : t.part[l].acc = a}
PipesOf(t, a) == {p \in 1..Len(t.pipe) : t.pipe[p].entry = a}
Over(t, a) == IF t.acc[a].kind = "S" THEN t.acc[a].st = "gone" ELSE \A l \in PartsOf(t, a) : t.part[l].st = "gone"
RECURSIVE Has(_, _)
Has(t, p) == LET e == t.pipe[p].entry
             IN IF e = 0 THEN TRUE ELSE IF t.acc[e].st = "held" THEN Has(t, t.acc[e].pipe) ELSE FALSE
AtHead(t, a) == LET q == t.pipe[t.acc[a].pipe].q IN q # <<>> /\ a \in Head(q) /\ Has(t, t.acc[a].pipe)

\* one step of bookkeeping, or the same state when there is nothing to do
Tidy(t) ==
  LET P == 1..Len(t.pipe)
      done == {p \in P : t.pipe[p].q # <<>> /\ Has(t, p) /\ \A a \in Head(t.pipe[p].q) : Over(t, a)}
      begin == {a \in 1..Len(t.acc) : t.acc[a].kind = "S" /\ t.acc[a].st = "queued" /\ AtHead(t, a)}
      close == {a \in 1..Len(t.acc) : /\ t.acc[a].kind = "S" /\ t.acc[a].st = "held"
                                      /\ \A p \in PipesOf(t, a) : ~t.pipe[p].open /\ t.pipe[p].q = <<>>}
      due == {l \in 1..Len(t.part) : t.part[l].st = "started" /\ AtHead(t, t.part[l].acc)}
  IN IF done # {} THEN LET p == Min(done) IN [t EXCEPT !.pipe[p].q = Tail(@)]
     ELSE IF close # {} THEN LET a == Min(close) IN [t EXCEPT !.acc[a].st = "gone"]
     ELSE IF begin # {} THEN LET a == Min(begin) IN [t EXCEPT !.acc[a].st = "held"]
     ELSE IF due # {} THEN
       LET l == Min(due)
           p == t.part[l]
       IN [t EXCEPT !.part[l] = [@ EXCEPT !.st = IF p.auto THEN "gone" ELSE "held", !.seen = [x \in Cells(p.reg) |-> t.val[x]], !.saw = TRUE],
                    !.val = IF p.kind = "W" /\ ~p.auto THEN [x \in Cells(Whole) |-> IF x \in Cells(p.reg) THEN l ELSE t.val[x]] ELSE t.val]
     ELSE t
RECURSIVE Settle(_)
Settle(t) == LET u == Tidy(t) IN IF u = t THEN t ELSE Settle(u)

Part(a, k, g, st) == [acc |-> a, kind |-> k, reg |-> g, st |-> st, auto |-> FALSE, seen |-> [x \in {} |-> 0], saw |-> FALSE]
Enqueue(t, p, k) ==
  LET a == Len(t.acc) + 1
      q == t.pipe[p].q
      join == k = "R" /\ t.pipe[p].last = "R" /\ q # <<>>
  IN [t EXCEPT !.acc = Append(@, [pipe |-> p, kind |-> k, st |-> "queued"]),
               !.pipe[p].q = IF join THEN [q EXCEPT ![Len(q)] = @ \cup {a}] ELSE Append(q, {a}),
               !.pipe[p].last = IF k = "R" THEN "R" ELSE "W"]
Ask(t, p, k, g, st) == LET u == Enqueue(t, p, k) IN [u EXCEPT !.part = Append(@, Part(Len(u.acc), k, g, st))]

Mask(t) == FoldSet(LAMBDA l, x : x + 2^(l - 1), 0, {l \in 1..Len(t.part) : t.part[l].st = "held"})
Do(t, op) == /\ Len(hist) < Depth
             /\ s' = Settle(t)
             /\ hist' = Append(hist, op \o <<Mask(s')>>)

M(m) == s.mat[m]
OpenM == {m \in 1..Len(s.mat) : s.mat[m].open}
Usable(m) == {k \in 1..Len(M(m).pipes) : s.pipe[M(m).pipes[k]].open}
AllUsable(m) == Usable(m) = 1..Len(M(m).pipes)
On(o) == o \in Ops
Room == Len(s.acc) < MaxAcc /\ Len(s.part) < MaxPart
KindNo(k) == IF k = "R" THEN 0 ELSE 1

Request(m, k, kind, lazy) ==
  /\ On("access") /\ (lazy => On("lazy")) /\ m \in OpenM /\ k \in Usable(m) /\ Room /\ (M(m).const => kind = "R")
  /\ LET p == M(m).pipes[k]
     IN Do(Ask(s, p, kind, s.pipe[p].reg, IF lazy THEN "wait" ELSE "started"),
           <<1, m, k, KindNo(kind) + (IF lazy THEN 2 ELSE 0)>>)
\* through a reference to a part of the matrix
RefRequest(m, n, k, kind, lazy) ==
  /\ On("refs") /\ (lazy => On("lazy")) /\ m \in OpenM /\ k \in Usable(m) /\ Room /\ (M(m).const => kind = "R")
  /\ LET p == M(m).pipes[k]
         c == Clip(s.pipe[p].reg, Refs[n])
     IN /\ ~Empty(c)
        /\ M(m).reg = Whole
        /\ Do(Ask(s, p, kind, c, IF lazy THEN "wait" ELSE "started"), <<2, m, n, k * 4 + KindNo(kind) + (IF lazy THEN 2 ELSE 0)>>)

Waiting(l) == s.part[l].st = "wait"
Start(l) == On("lazy") /\ Waiting(l) /\ Do([s EXCEPT !.part[l].st = "started"], <<3, l, 0, 0>>)
GiveUp(l) == On("lazy") /\ Waiting(l) /\ Do([s EXCEPT !.part[l].st = "gone"], <<4, l, 0, 0>>)
Release(l) == s.part[l].st = "held" /\ Do([s EXCEPT !.part[l].st = "gone"], <<5, l, 0, 0>>)
\* how a region may be cut; 0: into nothing
Cut(g, how) ==
  LET r == g[1]  c == g[2]  n == g[3]  m == g[4]  hn == g[3] \div 2  hm == g[4] \div 2
  IN CASE how = 0 -> <<>>
       [] how = 1 -> <<<<r + hn, c, n - hn, m>>, <<r, c, hn, m>>>>
       [] how = 2 -> <<<<r, c + hm, n, m - hm>>, <<r, c, n, hm>>>>
       [] how = 3 -> <<<<r + n - 1, c + m - 1, 1, 1>>>>
       [] how = 4 -> <<<<r + hn, c + hm, n - hn, m - hm>>, <<r, c, hn, hm>>, <<r, c, 0, m>>>>
       [] how = 5 -> <<<<r, c, n, m>>>>
       [] how = 6 -> <<<<r, c, hn, m>>, <<r + hn, c, n - hn, hm>>, <<r + hn, c + hm, n - hn, m - hm>>>>
       [] how = 7 -> <<<<r, c, n, m>>, <<r + hn, c, n - hn, m>>>>   \* overlapping: readers only
Split(l, how) ==
  /\ On("split") /\ Waiting(l) /\ ~Empty(s.part[l].reg)
  /\ LET p == s.part[l]
         cs == Cut(p.reg, how)
         new == [i \in 1..Len(cs) |-> Part(p.acc, p.kind, cs[i], "wait")]
     IN /\ Len(s.part) + Len(cs) <= MaxPart
        /\ how = 7 => p.kind = "R"
        /\ how = 0 => p.kind = "W"
        /\ Do([s EXCEPT !.part = [@ EXCEPT ![l] = IF p.kind = "R" THEN @ ELSE IF how = 0 THEN [@ EXCEPT !.st = "started", !.auto = TRUE]
                                                  ELSE [@ EXCEPT !.st = "gone"]] \o new], <<6, l, how, 0>>)
Share(l) == /\ On("split") /\ Waiting(l) /\ s.part[l].kind = "W"
            /\ Do([s EXCEPT !.part[l].kind = "R"], <<7, l, 0, 0>>)
Copy(l) == /\ On("split") /\ s.part[l].kind = "R" /\ (Waiting(l) \/ s.part[l].st = "held") /\ Len(s.part) < MaxPart
           /\ Do([s EXCEPT !.part = Append(@, s.part[l])], <<8, l, 0, 0>>)

\* a view of (a region g of) matrix m with tiles of tr x tc
View(t, m, g, tr, tc, const) ==
  LET ks == SelectSeq([k \in 1..Len(t.mat[m].pipes) |-> t.mat[m].pipes[k]], LAMBDA p : ~Empty(Clip(t.pipe[p].reg, g)))
      ts == Tiles(g, tr, tc)
      t1 == FoldLeft(LAMBDA u, p : Enqueue(u, p, "S"), t, ks)
      EntryOf(h) == Len(t.acc) + (CHOOSE i \in 1..Len(ks) : Cells(h) \subseteq Cells(t.pipe[ks[i]].reg))
  IN [t1 EXCEPT !.pipe = @ \o [i \in 1..Len(ts) |-> Pipe(EntryOf(ts[i]), ts[i])],
                !.mat = Append(@, [pipes |-> [i \in 1..Len(ts) |-> Len(t.pipe) + i], reg |-> g, tr |-> tr, tc |-> tc, const |-> const, open |-> TRUE])]
CanView(m) == m \in OpenM /\ AllUsable(m) /\ Len(s.mat) < MaxMat
Sub(m, const) == On("views") /\ CanView(m) /\ (M(m).const => const) /\
                 Do(View(s, m, M(m).reg, M(m).tr, M(m).tc, const), <<9, m, IF const THEN 1 ELSE 0, 0>>)
Blocked(m) == M(m).tr = TR /\ M(m).tc = TC
Retile(m, f, const) == /\ On("views") /\ CanView(m) /\ Blocked(m) /\ (M(m).const => const)
                       /\ Do(View(s, m, M(m).reg, TR \div f[1], TC \div f[2], const), <<10, m, f[1] * 100 + f[2], IF const THEN 1 ELSE 0>>)
RefRetile(m, n, f, const) == LET g == Refs[n] IN
                             /\ On("refs") /\ On("views") /\ CanView(m) /\ Blocked(m) /\ (M(m).const => const) /\ g[1] = 0 /\ g[2] = 0 /\ M(m).reg = Whole
                             /\ Do(View(s, m, g, TR \div f[1], TC \div f[2], const), <<11, m, n, f[1] * 200 + f[2] * 2 + (IF const THEN 1 ELSE 0)>>)
DoneTile(m, k) == /\ On("done") /\ m \in OpenM /\ k \in Usable(m)
                  /\ Do([s EXCEPT !.pipe[M(m).pipes[k]].open = FALSE], <<12, m, k, 0>>)
CloseM(t, m) == [t EXCEPT !.mat[m].open = FALSE,
                          !.pipe = [p \in 1..Len(t.pipe) |-> IF \E k \in 1..Len(t.mat[m].pipes) : t.mat[m].pipes[k] = p THEN [t.pipe[p] EXCEPT !.open = FALSE] ELSE t.pipe[p]]]
Drop(m) == On("views") /\ m \in OpenM /\ Do(CloseM(s, m), <<13, m, 0, 0>>)
Move(m) == On("moves") /\ m \in OpenM /\ Do(s, <<14, m, 0, 0>>)
\* moved over another matrix, which is closed by it
Over2(m, n) == On("moves") /\ m \in OpenM /\ n \in OpenM /\ m # n /\ M(m).const = M(n).const /\ Do(CloseM(s, n), <<15, m, n, 0>>)
Idle(t, p) == t.pipe[p].q = <<>> /\ Has(t, p)
\* waiting for all tiles: only when nothing would block it for ever
Wait(m) == /\ On("wait") /\ m \in OpenM /\ AllUsable(m)
           /\ \A k \in 1..Len(M(m).pipes) : Idle(s, M(m).pipes[k])
           /\ Do([s EXCEPT !.pipe = [p \in 1..Len(s.pipe) |-> IF \E k \in 1..Len(M(m).pipes) : M(m).pipes[k] = p THEN [s.pipe[p] EXCEPT !.last = "W"] ELSE s.pipe[p]]],
                 <<16, m, 0, 0>>)

Next ==
  \/ \E m \in OpenM :
       \/ \E k \in 1..Len(M(m).pipes), kind \in {"R", "W"}, lazy \in BOOLEAN :
            \/ Request(m, k, kind, lazy)
            \/ \E n \in 1..Len(Refs) : RefRequest(m, n, k, kind, lazy)
       \/ \E const \in BOOLEAN : Sub(m, const) \/ \E f \in Factors : Retile(m, f, const) \/ \E n \in 1..Len(Refs) : RefRetile(m, n, f, const)
       \/ \E k \in 1..Len(M(m).pipes) : DoneTile(m, k)
       \/ Drop(m) \/ Move(m) \/ Wait(m) \/ \E n \in OpenM : Over2(m, n)
  \/ \E l \in 1..Len(s.part) : Start(l) \/ GiveUp(l) \/ Release(l) \/ Share(l) \/ Copy(l) \/ \E how \in 0..7 : Split(l, how)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Held == {l \in 1..Len(s.part) : s.part[l].st = "held"}
Touch(a, b) == Cells(s.part[a].reg) \cap Cells(s.part[b].reg) # {}
RECURSIVE Chain(_)
Chain(a) == LET e == s.pipe[s.acc[a].pipe].entry IN IF e = 0 THEN <<a>> ELSE Append(Chain(e), a)
RECURSIVE Before(_, _)
Before(x, y) == IF x = <<>> \/ y = <<>> THEN FALSE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Before(Tail(x), Tail(y))
Earlier(a, b) == Before(Chain(s.part[a].acc), Chain(s.part[b].acc))
\* a part that writes an element is the only one that has it
WritersAlone == \A a, b \in Held : (a # b /\ s.part[a].kind = "W") => ~Touch(a, b)
\* each part saw, in each element, the last part before it in program order that wrote it
SeesLast ==
  \A a \in 1..Len(s.part) : s.part[a].saw => \A x \in Cells(s.part[a].reg) :
    LET W == {b \in 1..Len(s.part) : s.part[b].kind = "W" /\ s.part[b].saw /\ ~s.part[b].auto /\ x \in Cells(s.part[b].reg) /\ Earlier(b, a)}
    IN IF W = {} THEN s.part[a].seen[x] = 0
       ELSE s.part[a].seen[x] \in W /\ \A w \in W : w = s.part[a].seen[x] \/ Earlier(w, s.part[a].seen[x])
\* the base tile an access belongs to
RECURSIVE Base(_)
Base(a) == LET p == s.acc[a].pipe IN IF s.pipe[p].entry = 0 THEN p ELSE Base(s.pipe[p].entry)
\* nothing waits without a reason: something earlier is not over, on the same tile
NoIdleWait ==
  \A a \in 1..Len(s.part) : s.part[a].st = "started" =>
    \E b \in 1..Len(s.acc) : /\ ~Over(s, b)
                             /\ Base(b) = Base(s.part[a].acc)
                             /\ Before(Chain(b), Chain(s.part[a].acc))
\* a view exposes each element of what it covers exactly once
Partition ==
  \A m \in 1..Len(s.mat) :
    /\ UNION {Cells(s.pipe[s.mat[m].pipes[k]].reg) : k \in 1..Len(s.mat[m].pipes)} = Cells(s.mat[m].reg)
    /\ FoldSet(LAMBDA k, n : n + Cardinality(Cells(s.pipe[s.mat[m].pipes[k]].reg)), 0, 1..Len(s.mat[m].pipes)) = Cardinality(Cells(s.mat[m].reg))
RECURSIVE Drain(_)
Drain(t) == LET h == {l \in 1..Len(t.part) : t.part[l].st = "held"}
            IN IF h = {} THEN t
               ELSE Drain(Settle([t EXCEPT !.part = [l \in 1..Len(t.part) |-> IF l \in h THEN [t.part[l] EXCEPT !.st = "gone"] ELSE t.part[l]]]))
Final == Drain(Settle([s EXCEPT !.pipe = [p \in 1..Len(s.pipe) |-> [s.pipe[p] EXCEPT !.open = FALSE]],
                                !.part = [l \in 1..Len(s.part) |-> IF s.part[l].st = "wait" THEN [s.part[l] EXCEPT !.st = "gone"] ELSE s.part[l]]]))
\* when everything is closed and released, every started part had its turn and nothing is left
AllServed == LET f == Final IN /\ \A l \in 1..Len(f.part) : f.part[l].st = "gone" /\ (s.part[l].st = "started" => f.part[l].saw)
                               /\ \A a \in 1..Len(f.acc) : Over(f, a)
Flat(p) == <<p.reg[1], p.reg[2], p.reg[3], p.reg[4], IF p.saw THEN 1 ELSE 0>> \o
           (IF p.saw THEN [i \in 1..(p.reg[3] * p.reg[4]) |-> p.seen[<<p.reg[1] + ((i - 1) % p.reg[3]), p.reg[2] + ((i - 1) \div p.reg[3])>>]] ELSE <<>>)
Emit == (Len(hist) = EmitDepth) =>
          LET f == Final
          IN PrintT(<<"T", FlattenSeq(hist), -1, FlattenSeq([l \in 1..Len(f.part) |-> Flat(f.part[l])]), -2,
                      [i \in 1..(LR * LC) |-> f.val[<<(i - 1) % LR, (i - 1) \div LR>>]]>>)
=============================================================================
