------------------------------ MODULE TraceLcg ------------------------------
(***************************************************************************)
(* Conformance of recorded runs of the linear conjugate gradients: every   *)
(* call makes one of the transitions of Lcg with the outcome that the      *)
(* numbers allow (up to their rounding), and does to the arrays and to the *)
(* scalars what is documented.  At each stop, the residuals are those of x *)
(* and the quadratic has not increased; definite systems are solved.       *)
(***************************************************************************)
EXTENDS Lcg, TraceBase, F64
VARIABLES prob, cur, acc
tvars == <<cg, prob, cur, acc, l>>
None == [n |-> 0]
TraceInit == l = 1 /\ prob = None /\ cur = None /\ acc = None /\ cg = [stage |-> 99, first |-> FALSE, moved |-> 0, pre |-> FALSE, tr |-> FALSE]
Reset == Is("reset") /\ UNCHANGED <<cg, prob, cur, acc>>
Eps == IF prob.single THEN "0x1p-23" ELSE "0x1p-52"
Tiny == IF prob.single THEN "1e-42" ELSE "1e-305"
N == prob.n
Near(a, b, err) == FLe(FAbs(FSub(a, b)), err) \/ ~FFinite(err)
Eq(a, b) == FNorm(a) = FNorm(b)
F(k) == FOf(k, 1)
VAbs(x) == [i \in DOMAIN x |-> FAbs(x[i])]
AbsDot(x, y) == VSum(VForce([i \in DOMAIN x |-> FAbs(FMul(x[i], y[i]))]))
DotErr(x, y) == FAdd(FMul(FMul(Eps, F(N + 2)), AbsDot(x, y)), Tiny)
(* a*x + y, computed with one or two roundings *)
IsAxpy(v, a, x, y) == \A i \in 1 .. N : Near(v[i], FAdd(FMul(a, x[i]), y[i]),
                        FAdd(FMul(FMul("3", Eps), FAdd(FAbs(FMul(a, x[i])), FAbs(y[i]))), Tiny))
Same(f) == VEq(cur[f], Ev[f])
SameRho(I) == \A i \in I : Eq(cur.rho[i], Ev.rho[i])
Z(e) == IF prob.pre THEN e.z ELSE e.r
Fields == [p |-> VNormalise(Ev.p), q |-> VNormalise(Ev.q), r |-> VNormalise(Ev.r), x |-> VNormalise(Ev.x), z |-> VNormalise(Ev.z), rho |-> VNormalise(Ev.rho)]
Norm(x) == VNorm2(x)
Unchanged == Same("p") /\ Same("q") /\ Same("r") /\ Same("x") /\ Same("z") /\ VEq(cur.rho, Ev.rho)
AllRho == DOMAIN Ev.rho
-----------------------------------------------------------------------------
(* The invariants seen by the client: r = b - A.x, and the quadratic.      *)
Row(i, v) == VDot(prob.A[i], v)
MulA(v) == VForce([i \in 1 .. N |-> Row(i, v)])
NormA == VMaxTo([i \in 1 .. N |-> VSum(VAbs(prob.A[i]))], N)
Size == acc.size
ErrR == FMul(FMul(Eps, F((N + 4) * (acc.steps + 3))), Size)
ResidualsOK(x, r, err) == LET ax == MulA(x) IN \A i \in 1 .. N : Near(r[i], FSub(prob.b[i], ax[i]), err)
Phi(x, r) == FMul("-0.5", VDot(x, VAdd(r, prob.b)))
(* sizes of all the terms that have been added so far *)
Grow(a, alpha) == [a EXCEPT !.steps = @ + 1, !.size = FAdd(@, FAdd(FMul(FAbs(alpha), VNormInf(cur.q)), FMul(NormA, FAdd(VNormInf(cur.x), FMul(FAbs(alpha), VNormInf(cur.p))))))]
-----------------------------------------------------------------------------
TProblem == /\ Is("problem") /\ prob' = [n |-> Ev.n, A |-> Ev.A, b |-> Ev.b, pre |-> Ev.pre, single |-> Ev.single, algo |-> Ev.algo, spd |-> Ev.spd, delta |-> Ev.delta, M |-> Ev.M]
            /\ cg' = [stage |-> 99, first |-> FALSE, moved |-> 0, pre |-> Ev.pre, tr |-> Ev.algo = 2]
            /\ cur' = Fields /\ acc' = [steps |-> 0, size |-> F0, phi |-> "inf", whole |-> TRUE]
TNewRadius == /\ Is("newradius") /\ prob' = [prob EXCEPT !.delta = Ev.delta] /\ UNCHANGED <<cg, acc>> /\ cur' = Fields
TBegin == /\ Is("begin") /\ Begin(Ev.st) /\ cur' = Fields /\ VEq(Ev.r, prob.b) /\ UNCHANGED prob
          /\ acc' = [steps |-> 0, size |-> FAdd(VNormInf(Ev.r), IF Ev.st = Restart THEN FMul(NormA, VNormInf(Ev.x)) ELSE F0), phi |-> "inf", whole |-> TRUE]
TStage == /\ Is("stage") /\ cg' = [cg EXCEPT !.stage = Ev.st] /\ cur' = Fields /\ acc' = [acc EXCEPT !.whole = FALSE] /\ UNCHANGED prob
TRadius == /\ Is("radius") /\ BadRadius /\ Ev.st = Error /\ Unchanged /\ Ev.intact /\ cur' = Fields /\ UNCHANGED <<prob, acc>>
TDuties == Is("duties") /\ Ev.st = cg.stage /\ cur' = Fields /\ UNCHANGED <<cg, prob, acc>>
-----------------------------------------------------------------------------
Zeros(v) == \A i \in DOMAIN v : FEq(v[i], F0)
(* Each case: the transition, and what becomes of the data. *)
CStart == FromZero /\ Zeros(Ev.x) /\ Zeros(Ev.rho) /\ Same("r") /\ acc' = [acc EXCEPT !.phi = F0]
CRestart ==
  LET xn == Norm(cur.x) err == FMul(FMul(Eps, F(N + 4)), xn) IN
  /\ Same("r") /\ acc' = acc
  /\ \/ FromX(TRUE) /\ VEq(Ev.p, cur.x) /\ Same("x") /\ Zeros([i \in 1 .. 4 |-> Ev.rho[i]])
        /\ (cg.tr => (FLe(xn, FAdd(prob.delta, err)) /\ Near(Ev.rho[5], xn, err)))
     \/ cg.tr /\ FromX(FALSE) /\ FGe(FAdd(xn, err), prob.delta) /\ Zeros([i \in 1 .. 4 |-> Ev.rho[i]]) /\ Eq(Ev.rho[5], prob.delta)
        /\ LET s == FMin(F1, FDiv(prob.delta, xn)) IN
           \A i \in 1 .. N : Near(Ev.x[i], FMul(s, cur.x[i]), FAdd(Tiny, FMul(FMul(Eps, F(N + 6)), FAbs(cur.x[i]))))
CPrecond == AskPrecond /\ Unchanged /\ acc' = acc
CDirection ==
  LET z == Z(cur) rz == VDot(cur.r, z) err == DotErr(cur.r, z) new == Ev.rho[2] s == FSgn(new)
      beta == IF FGt(cur.rho[1], F0) THEN FDiv(new, cur.rho[1]) ELSE F0
  IN /\ Near(new, rz, err) /\ Direction(s)
     /\ Same("x") /\ Same("r") /\ SameRho(AllRho \ {2, 4})
     /\ IF s > 0 THEN /\ Near(Ev.rho[4], beta, FAdd(FMul(FMul("4", Eps), beta), Tiny))
                      /\ IsAxpy(Ev.p, Ev.rho[4], cur.p, z)
        ELSE Same("p") /\ SameRho({4})
     /\ acc' = acc
CResiduals == /\ Residuals /\ Same("x") /\ Same("p") /\ SameRho({5} \cap AllRho) /\ Zeros([i \in 1 .. 4 |-> Ev.rho[i]])
              /\ IsAxpy(Ev.r, "-1", cur.q, cur.r)
              /\ acc' = [Grow(acc, F1) EXCEPT !.phi = Phi(Ev.x, Ev.r)]
(* The step: pq is known within its error. *)
CStep ==
  LET pq == VDot(cur.p, cur.q) err == DotErr(cur.p, cur.q) rz == cur.rho[2] alpha == Ev.rho[3]
      full == FDiv(rz, pq) rel == FAdd(FDiv(err, FAbs(pq)), FMul("4", Eps))
      IsFull == Near(alpha, full, FAdd(FMul(rel, FAbs(full)), Tiny)) \/ ~FLt(rel, "0.5")
      Moves == IsAxpy(Ev.x, alpha, cur.p, cur.x) /\ IsAxpy(Ev.r, FNeg(alpha), cur.q, cur.r) /\ Same("p") /\ Same("q") /\ Eq(Ev.rho[1], rz) /\ SameRho({2, 4})
      xn == Norm(Ev.x) d == prob.delta derr == FMul(FMul(Eps, F(8 * (N + 4))), d)
      a2 == Grow(acc, alpha) a3 == [a2 EXCEPT !.phi = Phi(Ev.x, Ev.r)]
      Descends == acc.whole => FLe(a3.phi, FAdd(acc.phi, FMul(FMul(Eps, F(8 * (N + 4) * (acc.steps + 3))), FMul(Size, FAdd(VNormInf(Ev.x), VNormInf(cur.x))))))
  IN \/ /\ FGt(FAdd(pq, err), F0) /\ Step(1, "inside") /\ FGt(alpha, F0) /\ IsFull /\ Moves
        /\ (cg.tr => (FLe(xn, FAdd(d, derr)) /\ Near(Ev.rho[5], xn, derr)))
        /\ Descends /\ acc' = a3
     \/ \* no positive curvature
        /\ ~cg.tr /\ FLe(FSub(pq, err), F0) /\ Step(-1, "outside") /\ Same("x") /\ Same("r") /\ Same("p") /\ Same("q") /\ acc' = acc
     \/ \* to the boundary
        /\ cg.tr /\ Step(1, "outside") /\ Ev.st = Truncated /\ Moves
        /\ Near(xn, d, derr) /\ Eq(Ev.rho[5], d) /\ FGe(alpha, F0)
        /\ \/ FLe(FSub(pq, err), F0)
           \/ FLe(alpha, FMul(full, FAdd(F1, FMul("8", rel)))) \/ ~FLt(rel, "0.1")
        /\ Descends /\ acc' = a3
     \/ \* a step too short to be represented
        /\ FGt(FAdd(pq, err), F0) /\ Step(1, "nowhere") /\ FEq(alpha, F0) /\ (FLe(full, Tiny) \/ (prob.single /\ FGe(pq, "3.4e38"))) /\ Same("x") /\ Same("r") /\ acc' = acc
(* What is always true of the region: never outside. *)
InRegion == (acc'.whole /\ cg.tr /\ cg'.stage \in {NewX, Truncated}) => FLe(Norm(Ev.x), FMul(prob.delta, FAdd(F1, FMul(Eps, F(8 * (N + 4))))))
Checked == (acc'.whole /\ cg'.stage \in {NewX, Finish, NonConvex} /\ cg.stage \in {NewX, Precond, AP}) =>
             /\ ResidualsOK(Ev.x, Ev.r, FMul(FMul(Eps, F((N + 4) * (acc'.steps + 3))), acc'.size))
(* A definite system, well conditioned, is solved in as many steps as      *)
(* there are unknowns, up to rounding.                                     *)
Solved == (prob.spd /\ acc'.whole /\ cg'.stage \in {NewX, Finish, NonConvex} /\ (cg'.moved > N \/ cg'.stage \in {Finish, NonConvex})) =>
            FLe(Norm(Ev.r), FMul(IF prob.single THEN "1e-3" ELSE "1e-8", acc'.size))
TCall == /\ Is("call") /\ Ev.st0 = cg.stage /\ Ev.intact
         /\ \/ CStart \/ CRestart \/ CPrecond \/ CDirection \/ CResiduals \/ CStep
            \/ (Nothing \/ Wrong) /\ Unchanged /\ acc' = acc
         /\ cg'.stage = Ev.st
         /\ Same("z")
         /\ Same("q")
         /\ InRegion /\ Checked /\ Solved
         /\ cur' = Fields /\ UNCHANGED prob
TraceNext == Reset \/ TProblem \/ TNewRadius \/ TBegin \/ TStage \/ TRadius \/ TDuties \/ TCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
