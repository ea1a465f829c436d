------------------------------- MODULE MCGqt -------------------------------
(* All the problems of two integer variables of a small grid with their    *)
(* certified solutions: the theorem is checked; they are printed to be     *)
(* solved by the code.                                                     *)
EXTENDS Gqt, Sequences, TLC, Json
Entries == -2 .. 2
Pars == 0 .. 3
Radii == {1, 2, 5}
VARIABLE p
Box == -5 .. 5
MCInit == p \in [a : Entries, c : Entries, d : Entries, x1 : Box, x2 : Box, par : Pars, delta : Radii]
B1 == -((p.a + p.par) * p.x1 + p.c * p.x2)
B2 == -(p.c * p.x1 + (p.d + p.par) * p.x2)
OK == Certified(p.a, p.c, p.d, B1, B2, Sq(p.delta), p.x1, p.x2, p.par)
MCNext == UNCHANGED p
MCSpec == MCInit /\ [][MCNext]_p
Theorem == OK => Minimal(p.a, p.c, p.d, B1, B2, Sq(p.delta), p.x1, p.x2, Box)
Printed == OK => PrintT(ToJson(<<p.a, p.c, p.d, B1, B2, p.delta, p.x1, p.x2, p.par>>))
=============================================================================
