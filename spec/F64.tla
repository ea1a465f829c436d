------------------------------- MODULE F64 -------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers as TLA+ values.                               *)
(*                                                                         *)
(* A number is written as the string printed by C's "%a" (or any decimal   *)
(* literal, or "inf", "-inf", "nan").  The operators below are the IEEE    *)
(* operations, correctly rounded to nearest-even; their results are        *)
(* normalised strings so that equal numbers are equal strings (there is    *)
(* one zero: "0", minus zero is normalised away since no specification     *)
(* here distinguishes them, and one "nan").                                *)
(*                                                                         *)
(* TLC evaluates them with the Java module override F64.class, compiled    *)
(* from F64.java (the definitions below only state the signature).         *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

FNorm(a) == CHOOSE r \in STRING : TRUE          \* normal form
FOf(n, d) == CHOOSE r \in STRING : TRUE         \* integer quotient n/d
FAdd(a, b) == CHOOSE r \in STRING : TRUE
FSub(a, b) == CHOOSE r \in STRING : TRUE
FMul(a, b) == CHOOSE r \in STRING : TRUE
FDiv(a, b) == CHOOSE r \in STRING : TRUE
FSqrt(a) == CHOOSE r \in STRING : TRUE
FNeg(a) == CHOOSE r \in STRING : TRUE
FAbs(a) == CHOOSE r \in STRING : TRUE
FMin(a, b) == CHOOSE r \in STRING : TRUE        \* (a <= b ? a : b)
FMax(a, b) == CHOOSE r \in STRING : TRUE        \* (a >= b ? a : b)
FRnd32(a) == CHOOSE r \in STRING : TRUE         \* rounding to binary32
FLt(a, b) == CHOOSE r \in BOOLEAN : TRUE
FLe(a, b) == CHOOSE r \in BOOLEAN : TRUE
FEq(a, b) == CHOOSE r \in BOOLEAN : TRUE
FFinite(a) == CHOOSE r \in BOOLEAN : TRUE
FIsNaN(a) == CHOOSE r \in BOOLEAN : TRUE
\* |a - b| <= atol + rtol * max(|a|, |b|), or both the same infinity or NaN
FClose(a, b, rtol, atol) == CHOOSE r \in BOOLEAN : TRUE
FCos(a) == CHOOSE r \in STRING : TRUE
FSin(a) == CHOOSE r \in STRING : TRUE
\* sign of a as an integer: -1, 0, 1
FSgn(a) == CHOOSE r \in {-1, 0, 1} : TRUE

FGt(a, b) == FLt(b, a)
FGe(a, b) == FLe(b, a)
F0 == "0"
F1 == "0x1.0p0"
FInf == "inf"

(* Vectors are sequences of numbers. *)
VDim(x) == Len(x)
VMap2(Op(_, _), x, y) == [i \in 1 .. Len(x) |-> Op(x[i], y[i])]
VAdd(x, y) == VMap2(FAdd, x, y)
VSub(x, y) == VMap2(FSub, x, y)
VMul(x, y) == VMap2(FMul, x, y)
VScale(a, x) == [i \in 1 .. Len(x) |-> FMul(a, x[i])]
VNeg(x) == [i \in 1 .. Len(x) |-> FNeg(x[i])]
VAxpy(a, x, y) == [i \in 1 .. Len(x) |-> FAdd(FMul(a, x[i]), y[i])]
RECURSIVE VSumTo(_, _)
VSumTo(x, n) == IF n = 0 THEN F0 ELSE FAdd(VSumTo(x, n - 1), x[n])
VSum(x) == VSumTo(x, Len(x))
VDot(x, y) == VSum(VMul(x, y))
VNorm2(x) == FSqrt(VDot(x, x))
VNormalise(x) == [i \in 1 .. Len(x) |-> FNorm(x[i])]
VForce(x) == x       \* (evaluates the elements once and for all)
VZero(n) == [i \in 1 .. n |-> F0]
RECURSIVE VMaxTo(_, _)
VMaxTo(x, n) == IF n = 0 THEN F0 ELSE FMax(VMaxTo(x, n - 1), FAbs(x[n]))
VNormInf(x) == VMaxTo(x, Len(x))
VEq(x, y) == Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : FNorm(x[i]) = FNorm(y[i])
(* Matrices are sequences of rows.  The inverse (<<>> for a singular       *)
(* matrix) is the result of a Gauss-Jordan elimination with pivoting.      *)
MInverse(A) == CHOOSE B \in Seq(Seq(STRING)) : Len(B) \in {0, Len(A)}
MMulV(A, x) == [i \in 1 .. Len(A) |-> VDot(A[i], x)]
(* componentwise closeness, with an absolute tolerance relative to the     *)
(* largest magnitude `scale' of the quantities that were combined          *)
VClose(x, y, rtol, scale) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1 .. Len(x) : FClose(x[i], y[i], rtol, FMul(rtol, scale))
=============================================================================
