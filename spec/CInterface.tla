------------------------------ MODULE CInterface ------------------------------
(* Programs which use the library through its C and ScaLAPACK-like interface.

   A program owns two local arrays (and room for the results): A with a Hermitian matrix and B with a Hermitian positive
   definite matrix, its factor or its inverse.  It creates and frees grids, fills the arrays in the distribution of a
   grid order, and calls the routines, each of which is synchronous: between two calls nothing is going on, the runtime
   is suspended.  What the arrays contain after a call is a function of what they contained before.  The values come
   from EigenProblems: A is U diag(lam) U^H or L (U diag(lam) U^H) L^H, B is L L^H.                                *)
EXTENDS EigenProblems
CONSTANTS CallDepth, Orders, Forms, Cases
VARIABLES live,     \* grids by ticket: order, 0 after it was freed
          home,     \* order of the grid the arrays are distributed for, 0: not filled
          ca, cb,   \* contents of A and B
          tri,      \* triangle of B that is used
          script
pvars == <<live, home, ca, cb, tri, script>>
all == <<vars, pvars>>
PInit == Init /\ live = <<>> /\ home = 0 /\ ca = "none" /\ cb = "none" /\ tri = 0 /\ script = <<>>

Contents == <<"none", "std", "gen", "junk", "spd", "factor", "inverse">>
Code(x) == (CHOOSE i \in 1..7 : Contents[i] = x) - 1
Op(code, t, form, low, p, o, k, r, a, b) ==
  /\ script' = Append(script, <<code, t, form, low, p, o, k, r, Code(a), Code(b)>>)
  /\ ca' = a /\ cb' = b /\ UNCHANGED vars
Alive(t) == live[t] # 0
Create(o) == /\ Len(live) < 4 /\ live' = Append(live, o)
             /\ Op(1, Len(live) + 1, 0, 0, 0, o, 0, 0, ca, cb) /\ UNCHANGED <<home, tri>>
\* a BLACS context has one order for ever; its grid can be made again after it was freed
FromBlacs(o) == /\ Len(live) < 4 /\ live' = Append(live, o)
                /\ \A i \in 1..Len(script) : script[i][1] = 2 /\ script[i][6] = o => ~Alive(script[i][2])
                /\ Op(2, Len(live) + 1, 0, 0, 0, o, 0, 0, ca, cb) /\ UNCHANGED <<home, tri>>
Free(t) == Alive(t) /\ live' = [live EXCEPT ![t] = 0] /\ Op(3, t, 0, 0, 0, 0, 0, 0, ca, cb) /\ UNCHANGED <<home, tri>>
Fill(o, a, b, r) == /\ \E t \in 1..Len(live) : live[t] = o
                    /\ home' = o /\ tri' = r
                    /\ Op(4, 0, 0, 0, 0, o, 0, r, a, b) /\ UNCHANGED live
Usable(t) == Alive(t) /\ live[t] = home
Same == UNCHANGED <<live, home, tri>>
Potrf(t, f, c) == Usable(t) /\ cb = "spd" /\ Op(5, t, f, c, 0, 0, 0, tri, ca, "factor") /\ Same
Potri(t, f, c) == Usable(t) /\ cb = "factor" /\ Op(6, t, f, c, 0, 0, 0, tri, ca, "inverse") /\ Same
\* the part of the spectrum [0, ke), in the ScaLAPACK form [1, ke]
Range(f, p) == p = 1 /\ f = 1 /\ cfg.n > 0 => cfg.ke > 0
Heevd(t, f, c, p) == Usable(t) /\ Range(f, p) /\ ca = "std" /\ Op(7, t, f, c, p, 0, cfg.ke, 0, "junk", cb) /\ Same
Hegvd(t, f, c, p) == Usable(t) /\ Range(f, p) /\ ca = "gen" /\ cb = "spd" /\ tri = 0 /\ Op(8, t, f, c, p, 0, cfg.ke, 0, "junk", "factor") /\ Same
Hegvf(t, f, c, p) == Usable(t) /\ Range(f, p) /\ ca = "gen" /\ cb = "factor" /\ tri = 0 /\ Op(9, t, f, c, p, 0, cfg.ke, 0, "junk", "factor") /\ Same
Calls == \E t \in 1..Len(live) : \E f \in Forms : \E c \in Cases :
           Potrf(t, f, c) \/ Potri(t, f, c) \/ \E p \in 0..1 : Heevd(t, f, c, p) \/ Hegvd(t, f, c, p) \/ Hegvf(t, f, c, p)
Program == /\ Len(script) < CallDepth
           /\ \/ \E o \in Orders : Create(o) \/ FromBlacs(o)
              \/ \E t \in 1..Len(live) : Free(t)
              \* filled arrays are used before they are filled again
              \/ script # <<>> /\ script[Len(script)][1] # 4 /\ \E o \in Orders : \E a \in {"std", "gen"} : \E b \in {"spd", "factor"} : \E r \in 0..1 : Fill(o, a, b, r)
              \/ Calls
PNext == IF ~Done THEN Next /\ UNCHANGED pvars ELSE Program
PSpec == PInit /\ [][PNext]_all

----------------------------------------------------------------------------
\* only filled arrays have contents, only the lower triangle goes into the generalised problem
Sound == (home = 0 <=> ca = "none") /\ (home = 0 <=> cb = "none") /\ (home # 0 => home \in Orders)
\* the values do not change while the program runs
Problem == script = <<>> => Unitary /\ Decomposes /\ Ascending
PEmit == Len(script) = CallDepth /\ (\E i \in 1..CallDepth : script[i][1] >= 5) => \E a \in {A} :
  PrintT(<<"P", cfg.seed, cfg.n, cfg.nb, cfg.P, cfg.Q, cfg.sr, cfg.sc, B01(cfg.cplx), cfg.ke, cfg.minb, cfg.hhg, cfg.b1d, cfg.thr, e, Len(lam), lam,
           LowerTri(a), LowerTri(Embedded(a)), u, LowerTri(lt), Len(script), script>>)
=============================================================================
