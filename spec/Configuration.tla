--------------------------- MODULE Configuration ---------------------------
(* Where the value of a runtime option comes from.  Two options of chosen kinds are followed through sessions of
   the library (initialise ... finalise); the replay lets them stand for every pair of real options.
   Values: 0 is the built-in default, 1..V are others.  Sources: Nothing (-1) or a value.
     "cfg"   an option of dlaf::configuration: command line > environment > user's configuration > default
     "flag"  the same, but on the command line it can only be switched on (value 1); 2 means off
     "tune"  a tuning parameter: the user sets it directly, and it keeps its value between sessions
     "dump"  a tuning parameter without a command line option; 1 on, 2 off
     "idle"  an option that this version of the runtime cannot honour: the sources other than the user are ignored *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, Kind, V, WithMpi,
  Tolerant   \* the C interface: what is out of turn does nothing; it also starts and stops the runtime
VARIABLES env, val, on, poll, mpi, hist
vars == <<env, val, on, poll, mpi, hist>>
Opts == {1, 2}
Nothing == -1
Kinds == {"cfg", "flag", "tune", "dump", "idle"}
ASSUME Kind \in [Opts -> Kinds]
Tuning(o) == Kind[o] \in {"tune", "dump"}
CmdValues(o) == CASE Kind[o] = "flag" -> {Nothing, 1} [] Kind[o] = "dump" -> {Nothing} [] OTHER -> {Nothing} \cup 1..V
UserValues(o) == IF Tuning(o) \/ Tolerant THEN {Nothing} ELSE {Nothing} \cup 1..V
Init == /\ env = [o \in Opts |-> Nothing] /\ val = [o \in Opts |-> 0] /\ on = FALSE /\ poll = FALSE
        /\ mpi = TRUE /\ hist = <<>>
\* the value a session starts with
First(seq) == LET c == {i \in 1..Len(seq) : seq[i] # Nothing}
              IN seq[CHOOSE i \in c : \A j \in c : i <= j]
Value(o, cmd, user) == IF Kind[o] = "idle" THEN First(<<user, 0>>)
                       ELSE IF Tuning(o) THEN First(<<cmd, env[o], val[o]>>)
                       ELSE First(<<cmd, env[o], user, 0>>)
Log(code, args) == hist' = Append(hist, <<code>> \o args \o <<val'[1], val'[2], IF on' THEN 1 ELSE 0, IF poll' THEN 1 ELSE 0>>)
Live == Len(hist) < Depth /\ (hist # <<>> => hist[Len(hist)][1] # 9)
SetEnv(o, v) == /\ env[o] # v /\ env' = [env EXCEPT ![o] = v] /\ UNCHANGED <<val, on, poll, mpi>>
                /\ Log(1, <<o, v, 0, 0>>)
SetTune(o, v) == /\ Tuning(o) /\ ~Tolerant /\ val[o] # v /\ val' = [val EXCEPT ![o] = v] /\ UNCHANGED <<env, on, poll, mpi>>
                 /\ Log(2, <<o, v, 0, 0>>)
Initialise(c1, c2, u1, u2) ==
  /\ ~on /\ on' = TRUE /\ poll' = mpi
  /\ val' = (1 :> Value(1, c1, u1) @@ 2 :> Value(2, c2, u2))
  /\ UNCHANGED <<env, mpi>> /\ Log(3, <<c1, c2, u1, u2>>)
\* a finished session leaves the default configuration, tuning parameters stay
Finalise == /\ on /\ on' = FALSE /\ poll' = FALSE
            /\ val' = [o \in Opts |-> IF Tuning(o) THEN val[o] ELSE 0]
            /\ UNCHANGED <<env, mpi>> /\ Log(4, <<0, 0, 0, 0>>)
\* the program initialises or finalises MPI itself
ToggleMpi == /\ WithMpi /\ ~(on /\ mpi) /\ mpi' = ~mpi /\ UNCHANGED <<env, val, on, poll>> /\ Log(5, <<0, 0, 0, 0>>)
\* out of turn: refused, and the behaviour ends
Nothing1 == /\ Tolerant /\ on /\ UNCHANGED <<env, val, on, poll, mpi>>
            /\ \E c1 \in CmdValues(1) : Log(6, <<c1, Nothing, Nothing, Nothing>>)
Nothing2 == /\ Tolerant /\ ~on /\ UNCHANGED <<env, val, on, poll, mpi>> /\ Log(7, <<0, 0, 0, 0>>)
Refused == /\ hist # <<>> /\ ~Tolerant /\ UNCHANGED <<env, val, on, poll, mpi>> /\ Log(9, <<IF on THEN 1 ELSE 0, 0, 0, 0>>)
Next == /\ Live
        /\ \/ \E o \in Opts, v \in {Nothing} \cup 1..V : SetEnv(o, v)
           \/ \E o \in Opts, v \in 0..V : SetTune(o, v)
           \/ \E c1 \in CmdValues(1), c2 \in CmdValues(2), u1 \in UserValues(1), u2 \in UserValues(2) : Initialise(c1, c2, u1, u2)
           \/ Finalise \/ ToggleMpi \/ Nothing1 \/ Nothing2 \/ Refused
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* out of a session nothing is configured and nothing is polled
Balanced == ~on => ~poll /\ \A o \in Opts : ~Tuning(o) => val[o] = 0
\* an option changes only when a session begins or ends or the user changes it
Steady == [][\A o \in Opts : val'[o] # val[o] => hist'[Len(hist')][1] \in {2, 3, 4}]_vars
\* the sources of one option do not matter to the other one
Independent == [][\A o \in Opts : hist'[Len(hist')][1] = 3 =>
                    val'[o] = Value(o, hist'[Len(hist')][1 + o], hist'[Len(hist')][3 + o])]_vars
Emit == (Len(hist) = Depth \/ (hist # <<>> /\ hist[Len(hist)][1] = 9)) =>
          PrintT(<<"C", Kind[1], Kind[2], [i \in 1..Len(hist) |-> hist[i]]>>)
=============================================================================
