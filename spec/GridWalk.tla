------------------------------ MODULE GridWalk ------------------------------
(* A walker visiting the cells of a rows x cols grid in row- or column-major order.  `n` counts the
   cells visited before the current one: it is the linear index.  Also walks a refined grid (the
   trailing dimension K times longer) in lockstep, which gives the scaling law used by the driver. *)
EXTENDS Integers, TLC
CONSTANTS Dims,   \* set of <<rows, cols>>
          K       \* refinement factor for the law
VARIABLES dims, ord, i, j, n,
          ri, rj, rn   \* the walker of the refined grid
vars == <<dims, ord, i, j, n, ri, rj, rn>>
Rows == dims[1]
Cols == dims[2]

Init == /\ dims \in Dims /\ ord \in {"R", "C"} /\ dims[1] > 0 /\ dims[2] > 0
        /\ i = 0 /\ j = 0 /\ n = 0 /\ ri = 0 /\ rj = 0 /\ rn = 0

StepOf(r, c, rows, cols) ==
  IF ord = "R" THEN (IF c + 1 < cols THEN <<r, c + 1>> ELSE <<r + 1, 0>>)
               ELSE (IF r + 1 < rows THEN <<r + 1, c>> ELSE <<0, c + 1>>)
RECURSIVE Many(_, _, _, _)
Many(p, rows, cols, k) == IF k = 0 THEN p ELSE Many(StepOf(p[1], p[2], rows, cols), rows, cols, k - 1)
RRows == IF ord = "R" THEN Rows ELSE K * Rows
RCols == IF ord = "R" THEN K * Cols ELSE Cols

Visit ==
  /\ n + 1 < Rows * Cols
  /\ LET p == StepOf(i, j, Rows, Cols) IN i' = p[1] /\ j' = p[2]
  /\ LET q == Many(<<ri, rj>>, RRows, RCols, K) IN ri' = q[1] /\ rj' = q[2]
  /\ n' = n + 1 /\ rn' = rn + K
  /\ UNCHANGED <<dims, ord>>
Next == Visit
Spec == Init /\ [][Next]_vars

Inside == i \in 0..(Rows-1) /\ j \in 0..(Cols-1) /\ n \in 0..(Rows*Cols-1)
\* the walk never returns to a cell: lexicographic position determines n (bijection)
Bijective == IF ord = "R" THEN n = i * Cols + j ELSE n = j * Rows + i
Complete == (n = Rows * Cols - 1) => (i = Rows - 1 /\ j = Cols - 1)
Refines == /\ rn = K * n
           /\ IF ord = "R" THEN ri = i /\ rj = K * j ELSE ri = K * i /\ rj = j
Emit == PrintT(<<"C", IF ord = "R" THEN 0 ELSE 1, Rows, Cols, i, j, n>>)
=============================================================================
