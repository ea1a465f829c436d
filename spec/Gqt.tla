-------------------------------- MODULE Gqt --------------------------------
(***************************************************************************)
(* The trust region subproblem (gqtpar.c): minimize                        *)
(*      q(x) = x'A x/2 + b'x    subject to   |x| <= delta.                 *)
(* x is a solution if and only if there is a multiplier par >= 0 such that *)
(*   (A + par I) x = -b,  A + par I is positive semi-definite,             *)
(*   |x| <= delta, and par = 0 or |x| = delta.                             *)
(* The theorem is the ground for judging the solver: problems are built    *)
(* from their solution and multiplier.  Here on two variables and integers *)
(* (everything is doubled to remain so), where TLC checks it.              *)
(***************************************************************************)
EXTENDS Integers
Sq(v) == v * v
(* twice the quadratic; A = [a c; c d] *)
Q2(a, c, d, b1, b2, x1, x2) == a * x1 * x1 + 2 * c * x1 * x2 + d * x2 * x2 + 2 * (b1 * x1 + b2 * x2)
PSD(a, c, d) == a + d >= 0 /\ a * d - c * c >= 0
(* the certificate, with the square of delta *)
Certified(a, c, d, b1, b2, delta2, x1, x2, par) ==
  /\ par >= 0 /\ PSD(a + par, c, d + par)
  /\ (a + par) * x1 + c * x2 = -b1 /\ c * x1 + (d + par) * x2 = -b2
  /\ Sq(x1) + Sq(x2) <= delta2 /\ (par = 0 \/ Sq(x1) + Sq(x2) = delta2)
Minimal(a, c, d, b1, b2, delta2, x1, x2, box) ==
  \A y1, y2 \in box : Sq(y1) + Sq(y2) <= delta2 => Q2(a, c, d, b1, b2, y1, y2) >= Q2(a, c, d, b1, b2, x1, x2)
(* Outcomes: the solver stops at the latest after itmax iterations.        *)
Infos == 1 .. 4
Outcome(info, iter, itmax) == /\ info \in Infos
                              /\ iter = -1 \/ (1 <= iter /\ iter <= (IF itmax < 1 THEN 1 ELSE itmax) /\ (info = 4 => iter >= itmax))
=============================================================================
