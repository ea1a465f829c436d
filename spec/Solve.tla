-------------------------------- MODULE Solve --------------------------------
(***************************************************************************)
(* What it means that a multivariate optimizer solved a problem.           *)
(*                                                                         *)
(* The problems are strongly convex ones on a box whose solution is known: *)
(*   f(x) = sum_i lam_i t_i + a_i t_i^2/2 + q t_i^4/4                      *)
(*        + sum_i k (t_i + t_(i+1))^2/2                   with t = x - c   *)
(* where c is in the box and lam_i > 0 only where c_i is at its lower      *)
(* bound, lam_i < 0 only where it is at its upper one: the conditions of   *)
(* Karush, Kuhn and Tucker hold at c, which is the only solution.          *)
(*                                                                         *)
(* A run is a sequence of accepted iterates ending with FINAL_X.  Numbers  *)
(* are abstract (integers in the model, IEEE numbers in traces).           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Plus(_, _), Minus(_, _), Times(_, _), Lt(_, _), Zero, Half
Le(p, q) == ~Lt(q, p)
T(p, x) == [i \in DOMAIN x |-> Minus(x[i], p.c[i])]
(* The gradient at x. *)
Gradient(p, x) ==
  LET t == T(p, x)  n == Len(x)
      u == [i \in 1 .. n - 1 |-> Times(p.k, Plus(t[i], t[i + 1]))]
  IN [i \in 1 .. n |-> Plus(Plus(p.lam[i], Plus(Times(p.a[i], t[i]), Times(p.q, Times(t[i], Times(t[i], t[i]))))),
                            Plus(IF i < n THEN u[i] ELSE Zero, IF i > 1 THEN u[i - 1] ELSE Zero))]
(* Its part along which the variables may move (downhill). *)
Projected(p, x, g) == [i \in DOMAIN x |-> IF (Lt(Zero, g[i]) /\ Le(x[i], p.lo[i])) \/ (Lt(g[i], Zero) /\ Le(p.up[i], x[i])) THEN Zero ELSE g[i]]
RECURSIVE Square(_, _)
Square(v, i) == IF i = 0 THEN Zero ELSE Plus(Square(v, i - 1), Times(v[i], v[i]))
Norm2(v) == Square(v, Len(v))
Feasible(p, x) == \A i \in DOMAIN x : Le(p.lo[i], x[i]) /\ Le(x[i], p.up[i])
Onto(p, x) == [i \in DOMAIN x |-> IF Lt(x[i], p.lo[i]) THEN p.lo[i] ELSE IF Lt(p.up[i], x[i]) THEN p.up[i] ELSE x[i]]
WellPosed(p) == \A i \in DOMAIN p.c : /\ Le(p.lo[i], p.c[i]) /\ Le(p.c[i], p.up[i]) /\ Lt(Zero, p.a[i])
                                      /\ Lt(Zero, p.lam[i]) => Le(p.c[i], p.lo[i])
                                      /\ Lt(p.lam[i], Zero) => Le(p.up[i], p.c[i])
(* The least curvature. *)
RECURSIVE LeastOf(_, _)
LeastOf(a, i) == IF i = 1 THEN a[1] ELSE LET m == LeastOf(a, i - 1) IN IF Lt(a[i], m) THEN a[i] ELSE m
Mu(p) == LeastOf(p.a, Len(p.a))
(* A small projected gradient certifies that x is close to the solution:   *)
(*   mu |x - c| <= |projected gradient|       (squared)                    *)
Certified(p, x, pg2) == Le(Times(Times(Mu(p), Mu(p)), Norm2(T(p, x))), pg2)
(* The sequence of the values at accepted iterates: each one is not worse  *)
(* than the worst of the m previous ones.                                  *)
RECURSIVE WorstOf(_, _, _)
WorstOf(fs, i, m) == IF m <= 1 \/ i <= 1 THEN fs[i] ELSE LET w == WorstOf(fs, i - 1, m - 1) IN IF Lt(w, fs[i]) THEN fs[i] ELSE w
Descending(fs, m, slack(_)) == \A i \in 2 .. Len(fs) : LET w == WorstOf(fs, i - 1, m) IN Le(fs[i], Plus(w, slack(w)))
=============================================================================
