---------------------------- MODULE CommGrid ----------------------------
(* Seating the processes of a communicator on a two-dimensional grid.  An usher walks over the seats,
   along the columns or along the rows, and seats the processes in rank order; those left when the seats are
   taken stand aside.  The people of a row, of a column and of the whole grid form groups, whose members are
   numbered by walking along the row, along the column, or row by row.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Shapes,  \* <<rows, columns, surplus>>
          Emits
VARIABLES shape, order,   \* order: "R" the usher fills row after row, "C" column after column
          cur,            \* the next seat, <<row, column>>
          seat,           \* seat of each process seated so far
          aside           \* processes without a seat
vars == <<shape, order, cur, seat, aside>>
Rows == shape[1]
Cols == shape[2]
Ranks == Rows * Cols + shape[3]
Init == shape \in Shapes /\ order \in {"R", "C"} /\ cur = <<0, 0>> /\ seat = <<>> /\ aside = 0
Walk(p) == IF order = "R"
           THEN (IF p[2] + 1 < Cols THEN <<p[1], p[2] + 1>> ELSE <<p[1] + 1, 0>>)
           ELSE (IF p[1] + 1 < Rows THEN <<p[1] + 1, p[2]>> ELSE <<0, p[2] + 1>>)
Free == cur[1] < Rows /\ cur[2] < Cols
Sit == Free /\ seat' = Append(seat, cur) /\ cur' = Walk(cur) /\ UNCHANGED <<shape, order, aside>>
Stand == ~Free /\ Len(seat) + aside < Ranks /\ aside' = aside + 1 /\ UNCHANGED <<shape, order, cur, seat>>
Next == Sit \/ Stand
Spec == Init /\ [][Next]_vars
Done == Len(seat) + aside = Ranks
\* process p (from 0) sits at seat[p + 1]
At(r, c) == CHOOSE p \in 0..(Len(seat) - 1) : seat[p + 1] = <<r, c>>
RowGroup(r) == [c \in 1..Cols |-> At(r, c - 1)]
ColGroup(c) == [r \in 1..Rows |-> At(r - 1, c)]
Full == [k \in 1..(Rows * Cols) |-> At((k - 1) \div Cols, (k - 1) % Cols)]
OneSeatEach == \A i, j \in 1..Len(seat) : i # j => seat[i] # seat[j]
AllTaken == Done => /\ {seat[i] : i \in 1..Len(seat)} = (0..(Rows - 1)) \X (0..(Cols - 1))
                    /\ aside = shape[3]
\* within rows and columns the numbering follows the ranks
Ascending == Done => /\ \A r \in 0..(Rows - 1) : \A c \in 1..(Cols - 1) : RowGroup(r)[c] < RowGroup(r)[c + 1]
                     /\ \A c \in 0..(Cols - 1) : \A r \in 1..(Rows - 1) : ColGroup(c)[r] < ColGroup(c)[r + 1]
Emit == (Emits /\ Done) =>
  PrintT(<<"G", Rows, Cols, IF order = "R" THEN 0 ELSE 1, shape[3], seat,
           [r \in 1..Rows |-> RowGroup(r - 1)], [c \in 1..Cols |-> ColGroup(c - 1)], Full>>)
=========================================================================
