------------------------------ MODULE MCSolve ------------------------------
(* On a grid of problems of two variables: the solution is c, and a small  *)
(* projected gradient certifies a point.                                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS R
VARIABLES p, x
vars == <<p, x>>
P(a, b) == a + b
M(a, b) == a - b
X(a, b) == a * b
L(a, b) == a < b
S == INSTANCE Solve WITH Plus <- P, Minus <- M, Times <- X, Lt <- L, Zero <- 0, Half <- 0
Pt == -R .. R
Init == /\ p \in [a : {<<1, 1>>, <<1, 3>>, <<2, 5>>}, k : {0, 1, 3}, q : {0, 1}, c : {<<0, 0>>, <<1, -1>>, <<0, 2>>},
                  lam : (-2 .. 2) \X (-1 .. 1), lo : {<<-9, -9>>, <<0, 0>>, <<0, -9>>, <<1, -1>>, <<-9, -1>>, <<-2, 2>>},
                  up : {<<9, 9>>, <<0, 9>>, <<1, 2>>, <<1, -1>>, <<9, 2>>}]
        /\ S!WellPosed(p) /\ x \in Pt \X Pt /\ S!Feasible(p, x)
Next == x' \in Pt \X Pt /\ S!Feasible(p, x') /\ x' # x /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
(* twice the value of f times 2 *)
F4(y) == LET t == S!T(p, y) IN 4 * (p.lam[1] * t[1] + p.lam[2] * t[2]) + 2 * (p.a[1] * t[1] * t[1] + p.a[2] * t[2] * t[2])
                              + p.q * (t[1] * t[1] * t[1] * t[1] + t[2] * t[2] * t[2] * t[2]) + 2 * p.k * (t[1] + t[2]) * (t[1] + t[2])
SolutionIsC == F4(p.c) <= F4(x) /\ (F4(x) = F4(p.c) => x = p.c)
G == S!Gradient(p, x)
PG2 == S!Norm2(S!Projected(p, x, G))
Certificate == S!Certified(p, x, PG2)
StationaryIsSolution == PG2 = 0 <=> x = p.c
(* The gradient is the one of f: convexity inequality towards any other point *)
Convex == \A y \in Pt \X Pt : F4(y) - F4(x) >= 4 * (G[1] * (y[1] - x[1]) + G[2] * (y[2] - x[2]))
Projection == \A y \in Pt \X Pt : S!Feasible(p, S!Onto(p, y)) /\ (S!Feasible(p, y) => S!Onto(p, y) = y)
=============================================================================
