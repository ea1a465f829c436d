----------------------------- MODULE TraceBlas -----------------------------
(***************************************************************************)
(* Conformance of recorded calls of the kernels: the memory and the value  *)
(* returned are those of Blas, exactly when the data are such that no      *)
(* rounding occurs, up to the rounding of each term otherwise.             *)
(***************************************************************************)
EXTENDS TraceBase, F64, Integers
VARIABLES mem, abs, exact, single
tvars == <<mem, abs, exact, single, l>>
INSTANCE Blas WITH Plus <- FAdd, Times <- FMul, Zero <- F0, One <- F1
F(k) == FOf(k, 1)
Forced(m) == [b \in 1 .. 3 |-> VNormalise(m[b])]
TraceInit == l = 1 /\ mem = <<>> /\ abs = <<>> /\ exact = TRUE /\ single = FALSE
Reset == Is("reset") /\ UNCHANGED <<mem, abs, exact, single>>
TFill == Is("fill") /\ mem' = Forced(Ev.mem) /\ abs' = [b \in 1 .. 3 |-> VForce([p \in DOMAIN Ev.mem[b] |-> FAbs(Ev.mem[b][p])])]
         /\ exact' = Ev.exact /\ single' = Ev.single
Eps == IF single THEN "0x1p-23" ELSE "0x1p-52"
Tiny == IF single THEN "0x1p-147" ELSE "0x1p-1072"
(* alpha and beta as they are passed *)
Call == [Ev.c EXCEPT !.alpha = FNorm(@), !.beta = FNorm(@)]
AbsCall == [Call EXCEPT !.alpha = FAbs(@), !.beta = FAbs(@)]
Terms == LET s == {Call.m, Call.n, Call.k, 1} IN CHOOSE q \in s : \A r \in s : r <= q
Err(t) == IF exact THEN F0 ELSE FAdd(FMul(FMul(Eps, F(Terms + 4)), t), Tiny)
Near(a, b, t) == FEq(a, b) \/ (FIsNaN(a) /\ FIsNaN(b)) \/ FLe(FAbs(FSub(a, b)), Err(t))
Kept == \A b \in 1 .. 3 : VEq(mem[b], Ev.mem[b])
Same(E, A) == \A b \in 1 .. 3 : \/ VEq(E[b], Ev.mem[b])
                                \/ \A p \in DOMAIN mem[b] : (E[b][p] = mem[b][p] /\ FNorm(Ev.mem[b][p]) = E[b][p]) \/ Near(Ev.mem[b][p], E[b][p], A[b][p])
Now == [b \in 1 .. 3 |-> VNormalise(Ev.mem[b])]
X == VGet(mem, VX(Call), N0(Call))
AX == VGet(abs, VX(Call), N0(Call))
Max(x) == VMaxTo(x, Len(x))
-----------------------------------------------------------------------------
TrsvEvent ==
  LET s == VForce(VGet(Now, VX(Call), Call.n))
      as == VForce([i \in 1 .. Call.n |-> FAbs(s[i])])
      left == TriTimes(mem, Call, s)  right == VGet(mem, VX(Call), Call.n)  size == TriTimes(abs, Call, as)
  IN /\ \A i \in 1 .. Call.n : Near(left[i], right[i], size[i])
     /\ LET put == TrsvPut(mem, Call, s) IN \A b \in 1 .. 3 : VEq(put[b], Ev.mem[b])
Diag(m, j) == MElt(m, MA(Call), j, j)
CholEvent ==
  LET info == Ev.int
      f == Now
      q == IF info = 0 THEN Call.n ELSE info - 1
      af == [b \in 1 .. 3 |-> VForce([p \in DOMAIN f[b] |-> FAbs(f[b][p])])]
  IN /\ info \in 0 .. Call.n /\ OutsideTriKept(mem, f, Call)
     /\ \A j \in 1 .. q : FLt(F0, Diag(f, j))
     (* the first rows (columns) of the factor, over the leading minor *)
     /\ \A j \in 1 .. q : \A i \in 1 .. j : Near(Gram(f, Call, i, j, i), Sym(mem, Call, i, j), Gram(af, Call, i, j, i))
     /\ info > 0 => (* the next one has no real square root *)
        LET j == info IN
        /\ \A i \in 1 .. q : Near(Gram(f, Call, i, j, i), Sym(mem, Call, i, j), Gram(af, Call, i, j, i))
        /\ FLe(Sym(mem, Call, j, j), FAdd(Gram(f, Call, j, j, q), Err(FAdd(Gram(af, Call, j, j, q), FAbs(Sym(mem, Call, j, j))))))
-----------------------------------------------------------------------------
RealOf(c) ==
  CASE c.op = "dot" -> Near(Ev.real, Dot(mem, c), Dot(abs, AbsCall))
    [] c.op = "sum" -> Near(Ev.real, Sum(mem, c), Sum(abs, c))
    [] c.op = "asum" -> Near(Ev.real, Sum(abs, c), Sum(abs, c))
    [] c.op = "amax" -> FEq(Ev.real, Max(AX))
    [] c.op = "nrm2" -> LET a == Max(AX) IN
         IF FEq(a, F0) THEN FEq(Ev.real, F0)
         ELSE LET s == FMul(a, FSqrt(VSum(VForce([i \in DOMAIN AX |-> LET t == FDiv(AX[i], a) IN FMul(t, t)])))) IN
              \/ FLe(FAbs(FSub(Ev.real, s)), FAdd(FMul(FMul(Eps, F(Terms + 6)), s), Tiny))
              \/ FEq(Ev.real, FInf) /\ FLe(IF single THEN "0x1.fffff8p127" ELSE "0x1.ffffffffffff0p1023", s)
    [] OTHER -> TRUE
IAmaxOK(c) == IF c.n < 1 \/ c.incx < 1 THEN Ev.int = 0
              ELSE /\ Ev.int \in 1 .. c.n /\ FEq(AX[Ev.int], Max(AX)) /\ \A i \in 1 .. Ev.int - 1 : FLt(AX[i], AX[Ev.int])
Degenerate(c) == c.op = "gemv" /\ (c.m = 0 \/ c.n = 0)       \* (whether y is scaled is not said)
CallOK ==
     LET c == Call bad == Invalid(c) IN
     IF bad # {} THEN Kept /\ (IF c.op = "potf2" THEN -Ev.int ELSE Ev.int) \in bad
     ELSE CASE c.op = "trsv" -> Ev.int = 0 /\ TrsvEvent
            [] c.op = "potf2" -> CholEvent
            [] c.op = "iamax" -> IAmaxOK(c) /\ Kept
            [] c.op \in Explicit -> Ev.int = 0 /\ ((Degenerate(c) /\ Kept) \/ LET E == Forced(Effect(mem, c)) A == Effect(abs, AbsCall) IN Same(E, A))
            [] OTHER -> RealOf(c) /\ Kept
TCall == Is("call") /\ UNCHANGED <<mem, abs, exact, single>> /\ CallOK = TRUE
TraceNext == Reset \/ TFill \/ TCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
