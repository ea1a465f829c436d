------------------------------ MODULE TraceGqt ------------------------------
(* Conformance of recorded calls of the solver of the trust region         *)
(* subproblem, on problems whose solution is known.                        *)
EXTENDS Gqt, TraceBase, F64
VARIABLE count
tvars == <<count, l>>
TraceInit == l = 1 /\ count = 0
Reset == Is("reset") /\ UNCHANGED count
E == Ev
Eps == IF E.single THEN "0x1p-23" ELSE "0x1p-52"
F(k) == FOf(k, 1)
VAbs(x) == [i \in DOMAIN x |-> FAbs(x[i])]
Row(i, v) == VDot(E.A[i], v)
MulA(v) == VForce([i \in 1 .. E.n |-> Row(i, v)])
NormA == VMaxTo([i \in 1 .. E.n |-> VSum(VAbs(E.A[i]))], E.n)
Quad(x) == FAdd(FMul("0.5", VDot(x, MulA(x))), VDot(E.b, x))
(* rounding errors in the values of the quadratic *)
Size(x) == LET nx == FMax(VNorm2(x), E.delta) par == FMax(E.pars, IF E.par = "none" THEN F0 ELSE E.par) IN
           FAdd(FMul(FAdd(NormA, par), FMul(nx, nx)), FMul(VNorm2(E.b), nx))
Err(x) == FMul(FMul(Eps, F(40 * E.n)), Size(x))
Up == FAdd(F1, FMul(Eps, F(20 * (E.n + 4))))
TGqt ==
  /\ Is("gqt") /\ count' = count + 1
  /\ Outcome(E.info, E.iter, E.itmax)
  \* the matrix is whole again, nothing else is touched
  /\ E.intact /\ VEq(E.bout, E.b) /\ \A i \in 1 .. E.n : VEq(E.Aout[i], E.A[i])
  /\ \A i \in 1 .. E.n : FFinite(E.x[i])
  /\ LET nx == VNorm2(E.x) q == Quad(E.x) qs == Quad(E.xs) err == Err(E.x)
         near == FMul(FMul(E.rtol, E.delta), Up) slack == FMul(FMul(Eps, F(20 * (E.n + 4))), E.delta)
     IN /\ (E.f # "none" => FLe(FAbs(FSub(E.f, q)), err))
        /\ (E.par # "none" => FGe(E.par, F0))
        \* success: a solution within the tolerances
        /\ E.info \in {1, 2} => /\ FLe(nx, FAdd(FAdd(E.delta, near), slack))
                                /\ \* on the boundary when the multiplier is positive, but for what it is worth when A + par I is nearly singular
                                   (E.par # "none" /\ FGt(E.par, F0) /\ E.info = 1) =>
                                      \/ FLe(FAbs(FSub(nx, E.delta)), FAdd(near, slack))
                                      \/ FLe(FMul(E.par, FSub(FMul(E.delta, E.delta), FMul(nx, nx))), FMul("4", FAdd(FMul(E.rtol, FAbs(qs)), err)))
                                /\ E.par # "none" => FGe(FAdd(E.par, E.lmin), FNeg(FMul(FMul(Eps, F(20 * E.n)), FAdd(NormA, E.par))))
        /\ E.info = 1 => LET k == FSub(F1, E.rtol) IN FLe(q, FAdd(FMul(FMul(k, k), qs), err))
        /\ E.info = 2 => FLe(FMax(FNeg(q), FNeg(qs)), FAdd(E.atol, err))
        \* enough iterations: never given up
        /\ E.itmax >= 100 => E.info # 4
        \* what is claimed to be minimal is not worse than doing nothing
        /\ FLe(q, err)
TEstsv ==
  /\ Is("estsv") /\ count' = count + 1 /\ E.intact
  /\ LET n == E.n rz == VForce([i \in 1 .. n |-> VDot(E.R[i], E.z)]) big == VMaxTo([i \in 1 .. n |-> VSum(VAbs(E.R[i]))], n)
         tol == FMul(FMul(Eps, F(20 * (n + 2))), big) IN
     /\ FClose(VNorm2(E.z), F1, FMul(Eps, F(10 * n)), F0)
     /\ FGe(E.sv, F0) /\ FLe(FAbs(FSub(VNorm2(rz), E.sv)), tol)
     \* a small one: not larger than the smallest diagonal element by much, nor than the norm of a row
     /\ \A i \in 1 .. n : FLe(E.sv, FMul(F(3 * n), FAdd(VSum(VAbs(E.R[i])), tol)))
TraceNext == Reset \/ TGqt \/ TEstsv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
