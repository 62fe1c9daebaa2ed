---------------------------- MODULE PanelTrigger ----------------------------
(* The distributed reduction to band, seen from one column of processes: which pieces of work wait for what,   *)
(* which of them need a worker thread, and which hold the worker while they wait for other processes.          *)
(*                                                                                                             *)
(* The reflectors of a panel are computed by a task that calls a blocking all-reduce of the processes of the   *)
(* column: it keeps its worker until all of them take part.  Everything else communicates without a worker.    *)
(* With one worker per process the panel of the next step must therefore not begin before the process has     *)
(* everything out of the way that the others need to get there: that is what the trigger is for.               *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Procs,     \* number of processes of the column
          Tiles,     \* tiles per column of the matrix
          Workers,   \* workers per process
          Source,    \* the process of the first row of tiles
          Trigger    \* TRUE: the panel waits for the row panel xt of the step before

P == 0..(Procs - 1)
Steps == 0..(Tiles - 2)
Owner(i) == (i + Source) % Procs                              \* of the row of tiles i
Rows(p, j) == {i \in (j + 1)..(Tiles - 1) : Owner(i) = p}     \* rows of tiles of p below the diagonal tile j
Pivot(j) == Owner(j + 1)
Last(j) == j = Tiles - 2                                       \* no trailing matrix to update after it

\* state of a piece of work of process p for step j
VARIABLES panel,     \* "wait", "blocked" (in the collective, with its worker), "done"
          w,         \* "wait", "run", "done": local contribution to W2 (and before: T, W, X)
          posted,    \* the all-reduce of W2 was posted
          x,         \* "wait", "run", "done": X is updated with W2
          xt,        \* X of the pivot is there
          upd        \* "wait", "run", "done": the columns of the next panel are updated
vars == <<panel, w, posted, x, xt, upd>>
All(v) == [p \in P |-> [j \in Steps |-> v]]
Init == /\ panel = All("wait") /\ w = All("wait") /\ posted = All(FALSE)
        /\ x = All("wait") /\ xt = All(FALSE) /\ upd = All("wait")

Busy(p) == Cardinality({j \in Steps : panel[p][j] = "blocked"}) + Cardinality({j \in Steps : w[p][j] = "run"})
           + Cardinality({j \in Steps : x[p][j] = "run"}) + Cardinality({j \in Steps : upd[p][j] = "run"})
Free(p) == Busy(p) < Workers
Set(f, p, j, v) == [f EXCEPT ![p][j] = v]

(* A process without rows below the diagonal has nothing to wait for but the trigger. *)
PanelReady(p, j) == IF j = 0 THEN TRUE
                    ELSE /\ (Rows(p, j) # {}) => (upd[p][j - 1] = "done")
                         /\ panel[p][j - 1] = "done"
                         /\ Trigger => xt[p][j - 1]
PanelStart(p, j) == /\ panel[p][j] = "wait" /\ PanelReady(p, j) /\ Free(p)
                    /\ panel' = Set(panel, p, j, "blocked")
                    /\ UNCHANGED <<w, posted, x, xt, upd>>
PanelEnd(j) == /\ \A p \in P : panel[p][j] = "blocked"
               /\ panel' = [p \in P |-> [panel[p] EXCEPT ![j] = "done"]]
               /\ UNCHANGED <<w, posted, x, xt, upd>>
WStart(p, j) == /\ ~Last(j) /\ panel[p][j] = "done" /\ w[p][j] = "wait" /\ Free(p)
                /\ w' = Set(w, p, j, "run") /\ UNCHANGED <<panel, posted, x, xt, upd>>
WEnd(p, j) == /\ w[p][j] = "run" /\ w' = Set(w, p, j, "done") /\ UNCHANGED <<panel, posted, x, xt, upd>>
Post(p, j) == /\ w[p][j] = "done" /\ ~posted[p][j]
              /\ posted' = Set(posted, p, j, TRUE) /\ UNCHANGED <<panel, w, x, xt, upd>>
XStart(p, j) == /\ \A q \in P : posted[q][j]
                /\ x[p][j] = "wait" /\ Free(p)
                /\ x' = Set(x, p, j, "run") /\ UNCHANGED <<panel, w, posted, xt, upd>>
XEnd(p, j) == /\ x[p][j] = "run" /\ x' = Set(x, p, j, "done") /\ UNCHANGED <<panel, w, posted, xt, upd>>
Bcast(p, j) == /\ ~xt[p][j] /\ posted[p][j] /\ x[Pivot(j)][j] = "done"
               /\ xt' = Set(xt, p, j, TRUE) /\ UNCHANGED <<panel, w, posted, x, upd>>
UpdStart(p, j) == /\ xt[p][j] /\ x[p][j] = "done" /\ upd[p][j] = "wait" /\ Free(p)
                  /\ upd' = Set(upd, p, j, "run") /\ UNCHANGED <<panel, w, posted, x, xt>>
UpdEnd(p, j) == /\ upd[p][j] = "run" /\ upd' = Set(upd, p, j, "done") /\ UNCHANGED <<panel, w, posted, x, xt>>

Finished == /\ \A p \in P, j \in Steps : panel[p][j] = "done"
            /\ \A p \in P, j \in Steps : ~Last(j) => (upd[p][j] = "done")
Next == \/ \E p \in P, j \in Steps : PanelStart(p, j) \/ WStart(p, j) \/ WEnd(p, j) \/ Post(p, j) \/ XStart(p, j)
                                      \/ XEnd(p, j) \/ Bcast(p, j) \/ UpdStart(p, j) \/ UpdEnd(p, j)
        \/ \E j \in Steps : PanelEnd(j)
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>Finished
(* A blocking collective is entered only when the process owes nothing to the steps before. *)
NothingOwed == \A p \in P, j \in Steps : (panel[p][j] = "blocked" /\ j > 0) => (posted[p][j - 1] /\ xt[p][j - 1])
WithinWorkers == \A p \in P : Busy(p) <= Workers
=============================================================================
