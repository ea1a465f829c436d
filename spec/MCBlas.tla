------------------------------- MODULE MCBlas -------------------------------
(***************************************************************************)
(* The definitions of Blas over the field of P elements, for all calls of  *)
(* small sizes on all memories (P = 2), or on random ones: the kernels     *)
(* agree with one another, positions are where they should be, and a call  *)
(* changes nothing but its result.  Calls of any shape, valid or not, are  *)
(* printed to be made to the code.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS P, Depth, Emit
FPlus(a, b) == (a + b) % P
FTimes(a, b) == (a * b) % P
INSTANCE Blas WITH Plus <- FPlus, Times <- FTimes, Zero <- 0, One <- 1
VARIABLES mem, call, hist
vars == <<mem, call, hist>>
GF == 0 .. P - 1
None == [op |-> "none"]
Base == [op |-> "none", ta |-> 111, tb |-> 111, up |-> 121, di |-> 131, m |-> 2, n |-> 2, k |-> 2, alpha |-> 1, beta |-> 1,
         ao |-> 0, lda |-> 2, bo |-> 0, ldb |-> 2, co |-> 0, ldc |-> 2, xo |-> 0, incx |-> 1, yb |-> 3, yo |-> 0, incy |-> 1]
-----------------------------------------------------------------------------
(* Exhaustive: buffers of four elements, matrices of order 2 at most.      *)
B4 == [1 .. 4 -> GF]
C4 == {<<0, 1, 1, 0>>, <<1, 0, 1, 1>>}
VecCalls == {[Base EXCEPT !.op = o, !.n = n, !.alpha = a, !.incx = ix, !.incy = iy, !.yb = yb, !.xo = xo] :
              o \in {"swap", "scal", "copy", "axpy", "zero"}, n \in 0 .. 2, a \in GF, ix \in {-1, 1, 2}, iy \in {-1, 1, 2}, yb \in {2, 3}, xo \in {0, 1}}
GemvCalls == {[Base EXCEPT !.op = "gemv", !.ta = t, !.m = m, !.n = n, !.alpha = a, !.beta = b, !.incx = ix, !.incy = iy] :
              t \in {111, 112}, m \in 1 .. 2, n \in 1 .. 2, a \in GF, b \in GF, ix \in {-1, 1, 2}, iy \in {-1, 1, 2}}
TriCalls == {[Base EXCEPT !.op = o, !.ta = t, !.up = u, !.di = d, !.n = n, !.incx = ix] :
              o \in {"trmv", "trsv"}, t \in {111, 113}, u \in {121, 122}, d \in {131, 132}, n \in 0 .. 2, ix \in {-1, 1, 2}}
GemmCalls == {[Base EXCEPT !.op = "gemm", !.ta = t, !.tb = s, !.m = m, !.n = n, !.k = k, !.alpha = a, !.beta = b] :
              t \in {111, 112}, s \in {111, 112}, m \in 1 .. 2, n \in 1 .. 2, k \in 0 .. 2, a \in GF, b \in GF}
SyrkCalls == {[Base EXCEPT !.op = "syrk", !.ta = t, !.up = u, !.n = n, !.k = k, !.alpha = a, !.beta = b] :
              t \in {111, 112}, u \in {121, 122}, n \in 0 .. 2, k \in 0 .. 2, a \in GF, b \in GF}
Calls == VecCalls \cup GemvCalls \cup TriCalls \cup GemmCalls \cup SyrkCalls
(* operands must lie in the buffers, and results must not overlap operands *)
Fits(c) == c.op \notin Level1 \/ (/\ \A k \in 1 .. c.n : VPos(VX(c), c.n, k) \in 1 .. 4 /\ VPos(VY(c), c.n, k) \in 1 .. 4
                                  /\ (c.yb = 3 \/ VX(c) = VY(c) \/ VPositions(VX(c), c.n) \cap VPositions(VY(c), c.n) = {}))
Do(c) == /\ Fits(c) /\ call' = c /\ hist' = Append(hist, mem)
         /\ IF c.op = "trsv" THEN \E s \in [1 .. c.n -> GF] : TrsvOK(mem, c, s) /\ mem' = TrsvPut(mem, c, s)
            ELSE mem' = Effect(mem, c)
MCInit == mem \in {<<a, b, c>> : a \in B4, b \in B4, c \in C4} /\ call = None /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E c \in Calls : Do(c)
MCSpec == MCInit /\ [][MCNext]_vars
(* the same from random memories over a larger field *)
RNext == Len(hist) < Depth /\ Do(RandomElement(Calls))
RInit == mem = [b \in 1 .. 3 |-> [p \in 1 .. 4 |-> RandomElement(GF)]] /\ call = None /\ hist = <<>>
RSpec == RInit /\ [][RNext]_vars
Before == hist[Len(hist)]
Is(o) == call.op = o
-----------------------------------------------------------------------------
(* positions are found back from the addresses, and are distinct *)
Addresses == \A o \in 0 .. 2, inc \in {-3, -2, -1, 1, 2, 3}, n \in 0 .. 4 :
  LET v == Vec(1, o, inc) IN
  /\ \A p \in 1 .. 20 : LET k == VIndex(v, n, p) IN IF k = 0 THEN p \notin VPositions(v, n) ELSE VPos(v, n, k) = p
  /\ Cardinality(VPositions(v, n)) = n
  /\ \A p \in VPositions(v, n) : p > o /\ p <= o + 1 + (n - 1) * IAbs(inc)
MAddresses == \A o \in 0 .. 2, ld \in 1 .. 4 : LET a == Mat(1, o, ld) IN
  /\ \A i \in 1 .. ld, j \in 1 .. 3 : MRow(a, MPos(a, i, j)) = i /\ MCol(a, MPos(a, i, j)) = j
  /\ \A p \in 1 .. 14 : MRow(a, p) > 0 => MPos(a, MRow(a, p), MCol(a, p)) = p
ASSUME Addresses /\ MAddresses
(* nothing else changes *)
Results == IF Is("none") THEN {} ELSE
           IF call.op \in Level1 THEN ({2} \X VPositions(VX(call), call.n)) \cup ({call.yb} \X VPositions(VY(call), call.n))
           ELSE IF Is("gemv") THEN {3} \X VPositions(VY(call), IF call.ta = NoTrans THEN call.m ELSE call.n)
           ELSE IF call.op \in {"trmv", "trsv"} THEN {2} \X VPositions(VX(call), call.n)
           ELSE {3} \X {MPos(MC(call), i, j) : i \in 1 .. (IF Is("syrk") THEN call.n ELSE call.m), j \in 1 .. call.n}
Frame == \A b \in 1 .. 3, p \in 1 .. 4 : Is("none") \/ <<b, p>> \in Results \/ mem[b][p] = Before[b][p]
(* the solution of a triangular system is unique and is what it must be *)
Solvable(m, c) == c.di = Unit \/ \A i \in 1 .. c.n : MElt(m, MA(c), i, i) # 0
Solved == Is("trsv") => /\ Effect(mem, [call EXCEPT !.op = "trmv"]) = Before
                        /\ Solvable(Before, call) => Cardinality({s \in [1 .. call.n -> GF] : TrsvOK(Before, call, s)}) = 1
(* a rank-k update is a triangle of a product *)
AsProduct == Is("syrk") =>
  LET c == [call EXCEPT !.op = "gemm", !.tb = IF call.ta = NoTrans THEN 112 ELSE 111, !.m = call.n]
      g == Gemm([Before EXCEPT ![2] = Before[1]], c)
  IN \A i, j \in 1 .. call.n : MElt(mem, MC(call), i, j) = IF InTri(call.up, i, j) THEN MElt(g, MC(call), i, j) ELSE MElt(Before, MC(call), i, j)
(* a matrix-vector product is a product; the transpose is the adjoint *)
AsColumn == (Is("gemv") /\ call.incx = 1 /\ call.incy = 1) =>
  mem = Gemm(Before, [call EXCEPT !.op = "gemm", !.tb = 111, !.m = IF call.ta = NoTrans THEN call.m ELSE call.n, !.n = 1, !.k = IF call.ta = NoTrans THEN call.n ELSE call.m])
Adjoint == (Is("gemv") /\ call.ta = NoTrans /\ call.beta = 0 /\ call.alpha = 1) =>
  LET x == VGet(Before, VX(call), call.n) w == <<1, P - 1>>
      Ax == VGet(mem, VY(call), call.m)
      At(j) == SumN([i \in 1 .. call.m |-> FTimes(MElt(Before, MA(call), i, j), w[i])], call.m)
  IN SumN([i \in 1 .. call.m |-> FTimes(Ax[i], w[i])], call.m) = SumN([j \in 1 .. call.n |-> FTimes(At(j), x[j])], call.n)
SwapBack == Is("swap") => Swap(mem, call) = Before
Copied == Is("copy") => VGet(mem, VY(call), call.n) = VGet(Before, VX(call), call.n)
InField == \A b \in 1 .. 3, p \in 1 .. 4 : mem[b][p] \in GF
-----------------------------------------------------------------------------
(* Calls to be made to the code: any sizes, flags, increments.             *)
R(S) == RandomElement(S)
Wild(S, bad) == IF R(1 .. 40) = 1 THEN R(bad) ELSE R(S)
Incs == {-3, -2, -1, 1, 1, 2, 3}
Size == 0 .. 6
Shape(op) ==
  LET m == Wild(Size, {-1}) n == IF op \in Level1 THEN Wild(0 .. 19, {-1, -5}) ELSE Wild(Size, {-1, -3}) k == Wild(Size, {-2})
      ta == Wild({111, 112, 113}, {0, 110, 114, 121}) tb == Wild({111, 112, 113}, {0, 110, 114})
      ra == CASE op = "gemm" -> IF ta = 111 THEN m ELSE k [] op = "syrk" -> IF ta = 111 THEN n ELSE k [] op = "gemv" -> m [] OTHER -> n
      rb == IF tb = 111 THEN k ELSE n
      rc == IF op = "gemm" THEN m ELSE n
      one == op \in Level1 \ TwoVectors
      incx == IF one THEN IF op \in {"scal", "iamax"} THEN Wild({1, 2, 3}, {0, -1, -2}) ELSE R({1, 2, 3})
              ELSE IF op \in TwoVectors THEN R(Incs) ELSE Wild(Incs, {0})
      same == op \in TwoVectors /\ R(1 .. 6) = 1                     \* the same vector twice
      inter == op \in TwoVectors /\ ~same /\ R(1 .. 6) = 1           \* interleaved vectors
      ix == IF inter THEN R({-2, 2}) ELSE incx
      xo == R(0 .. 3)
  IN [op |-> op, ta |-> ta, tb |-> tb, up |-> Wild({121, 122}, {0, 120, 123}), di |-> Wild({131, 132}, {0, 130, 133}),
      m |-> m, n |-> n, k |-> k, alpha |-> IF R(1 .. 3) = 1 THEN 0 ELSE R({-3, -1, 1, 2}), beta |-> IF R(1 .. 3) = 1 THEN 0 ELSE R({-2, -1, 1, 3}),
      ao |-> R(0 .. 2), lda |-> Max1(ra) + Wild({0, 0, 1, 3}, {-1}), bo |-> R(0 .. 2), ldb |-> Max1(rb) + Wild({0, 1, 2}, {-1}),
      co |-> R(0 .. 2), ldc |-> Max1(rc) + Wild({0, 1, 2}, {-1}), xo |-> xo, incx |-> ix,
      yb |-> IF same \/ inter THEN 2 ELSE 3, yo |-> IF same THEN xo ELSE IF inter THEN xo + 1 ELSE R(0 .. 3),
      incy |-> IF same THEN ix ELSE IF inter THEN R({ix, -ix}) ELSE IF op \in Level1 THEN R(Incs) ELSE Wild(Incs, {0})]
Ops == Level1 \cup {"gemv", "trmv", "trsv", "gemm", "syrk", "potf2"}
EInit == mem = <<>> /\ call = None /\ hist = <<>>
EDo == /\ Len(hist) < Depth /\ hist' = Append(hist, Shape(IF R(1 .. 5) <= 2 THEN R(Level1) ELSE R(Ops \ Level1))) /\ UNCHANGED <<mem, call>>
EEnd == Len(hist) = Depth /\ call = None /\ call' = [op |-> "end"] /\ (Emit => PrintT(ToJson(hist))) /\ UNCHANGED <<mem, hist>>
ESpec == EInit /\ [][EDo \/ EEnd]_vars
=============================================================================
