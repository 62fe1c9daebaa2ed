----------------------------- MODULE TemporaryTile -----------------------------
(* One operation through a tile that may have to be a temporary one.                         *)
(*                                                                                           *)
(* State: what the tile given holds and who has it, and the same of the temporary tile.      *)
(* Contents: 0 the initial one, 1 what the operation writes, 2 anything.                     *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Sizes

VARIABLES o, phase, tile, temp, saw, event, out, trace
vars == <<o, phase, tile, temp, saw, event, out, trace>>

Modes == 0..3        \* the operation ends at once, after an event, with an error after an event, at once with an exception
Init ==
  /\ o \in [contig : BOOLEAN, ro : BOOLEAN, to : BOOLEAN, from : BOOLEAN, req : BOOLEAN, mode : Modes, size : Sizes]
  /\ ~(o.ro /\ o.from)
  /\ phase = "given" /\ tile = 0 /\ temp = -1 /\ saw = -1 /\ event = 0 /\ out = 0 /\ trace = <<>>

Uses == o.req /\ ~o.contig
Prepare == phase = "given" /\ Uses /\ temp' = (IF o.to THEN tile ELSE 2) /\ phase' = "ready"
           /\ UNCHANGED <<o, tile, saw, event, out, trace>>
Direct == phase = "given" /\ ~Uses /\ phase' = "ready" /\ UNCHANGED <<o, tile, temp, saw, event, out, trace>>
\* the operation is called on the tile it may use, and writes if it can
Call ==
  /\ phase = "ready" /\ saw' = (IF Uses THEN temp ELSE tile)
  /\ IF o.mode = 3 THEN UNCHANGED <<tile, temp>>
     ELSE IF Uses THEN temp' = 1 /\ UNCHANGED tile
     ELSE tile' = (IF o.ro THEN tile ELSE 1) /\ UNCHANGED temp
  /\ phase' = IF o.mode = 0 THEN "after" ELSE IF o.mode = 3 THEN "failed" ELSE "waits"
  /\ UNCHANGED <<o, event, out, trace>>
B(x) == IF x THEN 1 ELSE 0
Event == phase = "waits" /\ event = 0 /\ event' = 1 /\ phase' = (IF o.mode = 1 THEN "after" ELSE "failed")
         /\ UNCHANGED <<o, tile, temp, saw, out, trace>>
After == phase = "after" /\ tile' = (IF Uses /\ o.from THEN temp ELSE tile) /\ out' = 1 /\ phase' = "over" /\ temp' = -1
         /\ UNCHANGED <<o, saw, event, trace>>
Failed == phase = "failed" /\ out' = 2 /\ phase' = "over" /\ temp' = -1 /\ UNCHANGED <<o, tile, saw, event, trace>>
Next == Prepare \/ Direct \/ Call \/ Event \/ After \/ Failed
Spec == Init /\ [][Next]_vars

\* the tile given changes only when that is asked for, or when it is used itself
Kept == (o.ro \/ (Uses /\ ~o.from) \/ (out = 2 /\ Uses)) => tile = 0
Written == (phase = "over" /\ out = 1 /\ ~o.ro /\ (o.from \/ ~Uses)) => tile = 1
SeesInput == (saw # -1 /\ (o.to \/ ~Uses)) => saw = 0
NoLeak == phase = "over" => temp = -1
Emit == phase = "over" => PrintT(<<"T", B(o.contig), B(o.ro), B(o.to), B(o.from), B(o.req), o.mode, o.size[1], o.size[2], B(Uses), saw, tile, out>>)
=============================================================================
