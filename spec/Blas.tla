-------------------------------- MODULE Blas --------------------------------
(***************************************************************************)
(* The small linear algebra kernels (linalg.c) as operations on a memory.  *)
(*                                                                         *)
(* The memory is a sequence of buffers, each a sequence of numbers.  A     *)
(* vector operand is a start position and an increment in a buffer (with a *)
(* negative increment, the first element is the one stored last), a matrix *)
(* operand is a start position and a leading dimension, stored by columns. *)
(* A call c reads its operands, and changes the elements of its result and *)
(* nothing else, or nothing at all when one of its arguments is invalid.   *)
(* Numbers are abstract: the model checker uses a finite field, the        *)
(* conformance checks use the floating point numbers of the machine.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Plus(_, _), Times(_, _), Zero, One

NoTrans == 111
Upper == 121
Lower == 122
NonUnit == 131
Unit == 132
IsTransFlag(t) == t \in 111 .. 113
IsUpLo(u) == u \in {Upper, Lower}
IsDiag(d) == d \in {NonUnit, Unit}

Max1(n) == IF n < 1 THEN 1 ELSE n
IAbs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN Zero ELSE Plus(SumN(f, n - 1), f[n])
-----------------------------------------------------------------------------
(* Operands. *)
Vec(b, o, inc) == [b |-> b, o |-> o, inc |-> inc]
Mat(b, o, ld) == [b |-> b, o |-> o, ld |-> ld]
VX(c) == Vec(2, c.xo, c.incx)
VY(c) == Vec(c.yb, c.yo, c.incy)
MA(c) == Mat(1, c.ao, c.lda)
MB(c) == Mat(2, c.bo, c.ldb)
MC(c) == Mat(3, c.co, c.ldc)

VStart(v, n) == IF v.inc >= 0 THEN 0 ELSE (1 - n) * v.inc
VPos(v, n, k) == v.o + VStart(v, n) + (k - 1) * v.inc + 1          \* k-th element, k = 1 .. n
MPos(a, i, j) == a.o + (j - 1) * a.ld + i                          \* element (i,j), from 1
VPositions(v, n) == {VPos(v, n, k) : k \in 1 .. n}
(* which element of the vector lies at position p: 0 if none *)
VIndex(v, n, p) == LET d == p - 1 - v.o - VStart(v, n)
                       s == IF v.inc < 0 THEN -d ELSE d
                       w == IAbs(v.inc)
                       k == IF s >= 0 /\ w > 0 THEN s \div w ELSE -1
                   IN IF s >= 0 /\ w > 0 /\ (s % w) = 0 /\ k < n THEN k + 1 ELSE 0
MRow(a, p) == IF p <= a.o THEN 0 ELSE ((p - a.o - 1) % a.ld) + 1
MCol(a, p) == IF p <= a.o THEN 0 ELSE ((p - a.o - 1) \div a.ld) + 1

VGet(m, v, n) == [k \in 1 .. n |-> m[v.b][VPos(v, n, k)]]
VPut(m, v, n, val) ==
  [m EXCEPT ![v.b] = [p \in DOMAIN @ |-> LET k == VIndex(v, n, p) IN IF k = 0 THEN @[p] ELSE val[k]]]
MGet(m, a) == [ij \in Nat \X Nat |-> m[a.b][MPos(a, ij[1], ij[2])]]
MElt(m, a, i, j) == m[a.b][MPos(a, i, j)]
(* elements (i,j) for which In(i,j) holds become Val(i,j) *)
MPut(m, a, In(_, _), Val(_, _)) ==
  [m EXCEPT ![a.b] = [p \in DOMAIN @ |-> LET i == MRow(a, p) j == MCol(a, p) IN
                        IF i >= 1 /\ j >= 1 /\ In(i, j) THEN Val(i, j) ELSE @[p]]]
(* op(A)(i,j) *)
Op(m, a, trans, i, j) == IF trans = NoTrans THEN MElt(m, a, i, j) ELSE MElt(m, a, j, i)
(* a*v + b*w where a term with a null factor is not even computed *)
Scaled(b, w) == IF b = Zero THEN Zero ELSE Times(b, w)
-----------------------------------------------------------------------------
(* Level 1. *)
Level1 == {"swap", "scal", "copy", "axpy", "dot", "asum", "sum", "nrm2", "amax", "iamax", "zero"}
TwoVectors == {"swap", "copy", "axpy", "dot"}
N0(c) == IF c.n < 0 THEN 0 ELSE c.n
Axpy(m, c) ==
  LET n == N0(c) x == VGet(m, VX(c), n) y == VGet(m, VY(c), n) IN
  IF c.alpha = Zero THEN m ELSE VPut(m, VY(c), n, [k \in 1 .. n |-> Plus(Times(c.alpha, x[k]), y[k])])
Copy(m, c) == LET n == N0(c) IN VPut(m, VY(c), n, VGet(m, VX(c), n))
Swap(m, c) == LET n == N0(c) x == VGet(m, VX(c), n) y == VGet(m, VY(c), n) IN VPut(VPut(m, VY(c), n, x), VX(c), n, y)
Scal(m, c) == LET n == IF c.incx < 1 THEN 0 ELSE N0(c) x == VGet(m, VX(c), n) IN
              VPut(m, VX(c), n, [k \in 1 .. n |-> Scaled(c.alpha, x[k])])
ZeroV(m, c) == LET n == N0(c) IN VPut(m, VX(c), n, [k \in 1 .. n |-> Zero])
Dot(m, c) == LET n == N0(c) x == VGet(m, VX(c), n) y == VGet(m, VY(c), n) IN SumN([k \in 1 .. n |-> Times(x[k], y[k])], n)
Sum(m, c) == SumN(VGet(m, VX(c), N0(c)), N0(c))
-----------------------------------------------------------------------------
(* Levels 2 and 3: the invalid arguments, by their positions. *)
Invalid(c) ==
  CASE c.op = "gemv" -> {k \in {1, 2, 3, 6, 8, 11} : CASE k = 1 -> ~IsTransFlag(c.ta) [] k = 2 -> c.m < 0 [] k = 3 -> c.n < 0
                          [] k = 6 -> c.lda < Max1(c.m) [] k = 8 -> c.incx = 0 [] OTHER -> c.incy = 0}
    [] c.op \in {"trmv", "trsv"} -> {k \in {1, 2, 3, 4, 6, 8} : CASE k = 1 -> ~IsUpLo(c.up) [] k = 2 -> ~IsTransFlag(c.ta) [] k = 3 -> ~IsDiag(c.di)
                          [] k = 4 -> c.n < 0 [] k = 6 -> c.lda < Max1(c.n) [] OTHER -> c.incx = 0}
    [] c.op = "gemm" -> {k \in {1, 2, 3, 4, 5, 8, 10, 13} : CASE k = 1 -> ~IsTransFlag(c.ta) [] k = 2 -> ~IsTransFlag(c.tb)
                          [] k = 3 -> c.m < 0 [] k = 4 -> c.n < 0 [] k = 5 -> c.k < 0
                          [] k = 8 -> IsTransFlag(c.ta) /\ c.lda < Max1(IF c.ta = NoTrans THEN c.m ELSE c.k)
                          [] k = 10 -> IsTransFlag(c.tb) /\ c.ldb < Max1(IF c.tb = NoTrans THEN c.k ELSE c.n)
                          [] OTHER -> c.ldc < Max1(c.m)}
    [] c.op = "syrk" -> {k \in {1, 2, 3, 4, 7, 10} : CASE k = 1 -> ~IsUpLo(c.up) [] k = 2 -> ~IsTransFlag(c.ta) [] k = 3 -> c.n < 0 [] k = 4 -> c.k < 0
                          [] k = 7 -> IsTransFlag(c.ta) /\ c.lda < Max1(IF c.ta = NoTrans THEN c.n ELSE c.k) [] OTHER -> c.ldc < Max1(c.n)}
    [] c.op = "potf2" -> {k \in {1, 2, 4} : CASE k = 1 -> ~IsUpLo(c.up) [] k = 2 -> c.n < 0 [] OTHER -> c.lda < Max1(c.n)}
    [] OTHER -> {}

InTri(up, i, j) == IF up = Upper THEN i <= j ELSE i >= j

(* y := alpha*op(A).x + beta*y *)
Gemv(m, c) ==
  LET lx == IF c.ta = NoTrans THEN c.n ELSE c.m
      ly == IF c.ta = NoTrans THEN c.m ELSE c.n
      x == VGet(m, VX(c), lx) y == VGet(m, VY(c), ly)
      P(i) == IF c.alpha = Zero THEN Zero ELSE Times(c.alpha, SumN([j \in 1 .. lx |-> Times(Op(m, MA(c), c.ta, i, j), x[j])], lx))
  IN VPut(m, VY(c), ly, [i \in 1 .. ly |-> Plus(P(i), Scaled(c.beta, y[i]))])
(* coefficients of a triangular matrix, and of op(T) *)
Tri(m, c, i, j) == IF i = j THEN IF c.di = Unit THEN One ELSE MElt(m, MA(c), i, j)
                   ELSE IF InTri(c.up, i, j) THEN MElt(m, MA(c), i, j) ELSE Zero
OpTri(m, c, i, j) == IF c.ta = NoTrans THEN Tri(m, c, i, j) ELSE Tri(m, c, j, i)
TriTimes(m, c, x) == [i \in 1 .. c.n |-> SumN([j \in 1 .. c.n |-> LET t == OpTri(m, c, i, j) IN IF t = Zero THEN Zero ELSE Times(t, x[j])], c.n)]
Trmv(m, c) == VPut(m, VX(c), c.n, TriTimes(m, c, VGet(m, VX(c), c.n)))
(* x is replaced by the solution s of op(T).s = x *)
TrsvPut(m, c, s) == VPut(m, VX(c), c.n, s)
TrsvOK(m, c, s) == TriTimes(m, c, s) = VGet(m, VX(c), c.n)
(* C := alpha*op(A).op(B) + beta*C *)
Gemm(m, c) ==
  LET P(i, j) == IF c.alpha = Zero THEN Zero
                 ELSE Times(c.alpha, SumN([l \in 1 .. c.k |-> Times(Op(m, MA(c), c.ta, i, l), Op(m, MB(c), c.tb, l, j))], c.k))
      In(i, j) == i <= c.m /\ j <= c.n
      Val(i, j) == Plus(P(i, j), Scaled(c.beta, MElt(m, MC(c), i, j)))
  IN MPut(m, MC(c), In, Val)
(* C := alpha*op(A).op(A)' + beta*C, in a triangle *)
Syrk(m, c) ==
  LET P(i, j) == IF c.alpha = Zero THEN Zero
                 ELSE Times(c.alpha, SumN([l \in 1 .. c.k |-> Times(Op(m, MA(c), c.ta, i, l), Op(m, MA(c), c.ta, j, l))], c.k))
      In(i, j) == i <= c.n /\ j <= c.n /\ InTri(c.up, i, j)
      Val(i, j) == Plus(P(i, j), Scaled(c.beta, MElt(m, MC(c), i, j)))
  IN MPut(m, MC(c), In, Val)
(* Cholesky: f is the memory after the call.  F(l,j) is the factor in rows *)
(* (upper) or in columns (lower): A(i,j) = sum over l <= i,j F(l,i)F(l,j).  *)
Fac(f, c, l, j) == IF c.up = Upper THEN MElt(f, MA(c), l, j) ELSE MElt(f, MA(c), j, l)
Sym(m, c, i, j) == IF InTri(c.up, i, j) THEN MElt(m, MA(c), i, j) ELSE MElt(m, MA(c), j, i)
Gram(f, c, i, j, q) == SumN([l \in 1 .. q |-> Times(Fac(f, c, l, i), Fac(f, c, l, j))], q)
(* nothing else than the triangle is changed *)
OutsideTriKept(m, f, c) ==
  LET a == MA(c) IN
  /\ \A b \in DOMAIN m : b = a.b \/ m[b] = f[b]
  /\ \A p \in DOMAIN m[a.b] : LET i == MRow(a, p) j == MCol(a, p) IN
        \/ (i >= 1 /\ j >= 1 /\ i <= c.n /\ j <= c.n /\ InTri(c.up, i, j))
        \/ m[a.b][p] = f[a.b][p]
-----------------------------------------------------------------------------
(* The memory after a call whose arguments are valid, for the kernels      *)
(* whose result is given by a formula.                                     *)
Explicit == {"swap", "scal", "copy", "axpy", "zero", "gemv", "trmv", "gemm", "syrk"}
Effect(m, c) ==
  CASE c.op = "swap" -> Swap(m, c) [] c.op = "scal" -> Scal(m, c) [] c.op = "copy" -> Copy(m, c)
    [] c.op = "axpy" -> Axpy(m, c) [] c.op = "zero" -> ZeroV(m, c) [] c.op = "gemv" -> Gemv(m, c)
    [] c.op = "trmv" -> Trmv(m, c) [] c.op = "gemm" -> Gemm(m, c) [] c.op = "syrk" -> Syrk(m, c)
    [] OTHER -> m
=============================================================================
