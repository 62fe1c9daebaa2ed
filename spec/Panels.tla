------------------------------ MODULE Panels ------------------------------
(* A panel: a one-dimensional array of tiles that follows the tiles of a matrix along one axis.

   Along this axis the matrix has N elements (shifted by Off inside its first tile) in tiles of B, dealt to
   P processes starting with process S; the panel is seen by process R.  It exists from tile Bias on and
   gives access to the tiles of a range, the first of them from a given element on; across the axis the
   tiles are W wide, or narrower on request.  A tile is the panel's own or a link to a tile elsewhere. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Confs,      \* set of <<N, B, P, R, S, Bias, Off>>
          W, Depth
VARIABLES k,          \* the configuration
          p,          \* the panel
          hist
vars == <<k, p, hist>>

N == k[1]
B == k[2]
P == k[3]
R == k[4]
S == k[5]
Bias == k[6]
Off == k[7]
NrTiles == (N + Off + B - 1) \div B
Owner(g) == (g + S) % P
Mine(g) == Owner(g) = R
\* how many of the tiles before g are here: the local index of the first local tile at or after g
Loc(g) == Cardinality({x \in 0..(g - 1) : Mine(x)})
Glob(l) == CHOOSE g \in 0..NrTiles : Mine(g) /\ Loc(g) = l
Stop(g) == IF N + Off < (g + 1) * B THEN N + Off ELSE (g + 1) * B
Begin(g) == IF Off > g * B THEN Off ELSE g * B
TileSize(g) == Stop(g) - Begin(g)

Init == k \in Confs /\ p = [start |-> k[6], end |-> (k[1] + k[7] + k[2] - 1) \div k[2], cut |-> 0, dim |-> -1, used |-> FALSE,
                             links |-> {}, own |-> {}, val |-> [l \in {} |-> 0]]
        /\ hist = <<>>

\* elements of local tile l the panel shows along the axis
Shown(q, l) == LET g == Glob(l) IN TileSize(g) - (IF g = q.start THEN q.cut ELSE 0)
Locals(q) == {l \in Loc(q.start)..(Loc(q.end) - 1) : TRUE}
Element(q) == q.start * B + q.cut
Obs(q) == <<q.start, q.end, Loc(q.start), Loc(q.end), Element(q), IF q.dim < 0 THEN W ELSE q.dim, Cardinality(Locals(q))>>
          \o [i \in 1..Cardinality(Locals(q)) |-> Shown(q, Loc(q.start) + i - 1)]
Do(q, op) == Len(hist) < Depth /\ p' = q /\ k' = k /\ hist' = Append(hist, op \o Obs(q))

CanShape == ~p.used
CanRange == CanShape /\ Off = 0
\* the first tile must be one the panel exists for
From(g) == g >= Bias
SetRange(a, b) == /\ CanRange /\ a <= b /\ From(a)
                  /\ Do([p EXCEPT !.start = a, !.end = b, !.cut = 0], <<1, a, b>>)
SetStart(a) == CanRange /\ a <= p.end /\ From(a) /\ Do([p EXCEPT !.start = a, !.cut = 0], <<2, a, 0>>)
SetStartElement(e) == LET a == e \div B IN
                      /\ CanRange /\ e < N /\ a <= p.end /\ From(a)
                      /\ Do([p EXCEPT !.start = a, !.cut = e % B], <<3, e, 0>>)
SetEnd(b) == CanRange /\ b >= p.start /\ Do([p EXCEPT !.end = b], <<4, b, 0>>)
SetDim(d) == CanShape /\ Do([p EXCEPT !.dim = d], <<5, d, 0>>)
\* what is shown of each tile that is read or written
Ok(l) == l \in Locals(p) /\ Shown(p, l) > 0
Link(l) == /\ Ok(l) /\ l \notin p.links /\ l \notin p.own
           /\ LET id == Len(hist) + 1
              IN Do([p EXCEPT !.used = TRUE, !.links = @ \cup {l}, !.val = [x \in (DOMAIN @) \cup {l} |-> IF x = l THEN id ELSE @[x]]], <<6, l, id>>)
Write(l) == /\ Ok(l) /\ l \notin p.links
            /\ LET id == Len(hist) + 1
               IN Do([p EXCEPT !.used = TRUE, !.own = @ \cup {l}, !.val = [x \in (DOMAIN @) \cup {l} |-> IF x = l THEN id ELSE @[x]]], <<7, l, id>>)
\* reading a tile that nothing was written to yet: anything may be seen
Read(l) == /\ Ok(l)
           /\ Do([p EXCEPT !.used = TRUE, !.own = IF l \in p.links THEN @ ELSE @ \cup {l}],
                 <<8, l, IF l \in DOMAIN p.val THEN p.val[l] ELSE 0>>)
Reset == Do([p EXCEPT !.used = FALSE, !.dim = -1, !.links = {}, !.own = {}, !.val = [l \in {} |-> 0]], <<9, 0, 0>>)
Move == Do(p, <<10, 0, 0>>)
Next == \/ \E a, b \in 0..NrTiles : SetRange(a, b)
        \/ \E a \in 0..NrTiles : SetStart(a) \/ SetEnd(a)
        \/ \E e \in 0..(N - 1) : SetStartElement(e)
        \/ \E d \in 1..W : SetDim(d)
        \/ \E l \in 0..NrTiles : Link(l) \/ Write(l) \/ Read(l) \/ Read(l)
        \/ Reset \/ Move
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* the tiles of the range, over all processes, are the elements of the range
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + Sum(f, D \ {x})
Covers ==
  LET G == {g \in p.start..(p.end - 1) : TRUE}
      end == IF p.end = NrTiles THEN N + Off ELSE p.end * B
      begin == IF Off > 0 /\ p.start = 0 THEN Off ELSE p.start * B
  IN p.start < p.end => Sum([g \in G |-> TileSize(g) - (IF g = p.start THEN p.cut ELSE 0)], G) = end - begin - p.cut
Consistent == p.links \cap p.own = {} /\ (p.used \/ (p.links = {} /\ p.own = {})) /\ p.start <= p.end
\* what must be refused now: <<what, index>>
Refused == {<<7, l>> : l \in p.links} \cup {<<6, l>> : l \in p.links \cup p.own}
           \cup (IF p.used /\ Off = 0 THEN {<<2, p.start>>, <<1, p.start>>, <<4, p.end>>, <<3, 0>>} ELSE {})
           \cup (IF p.used THEN {<<5, 1>>} ELSE {})
           \cup {<<8, Loc(p.end)>>, <<7, Loc(p.end)>>} \cup (IF Loc(p.start) > 0 THEN {<<8, Loc(p.start) - 1>>} ELSE {})
Emit == Len(hist) = Depth => PrintT(<<"P", k, Loc(NrTiles), W, FlattenSeq(hist), -7, FlattenSeq(SetToSeq(Refused))>>)
=============================================================================
