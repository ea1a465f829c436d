--------------------------- MODULE TraceAlgebra ---------------------------
(* Conformance of recorded vector operations with Algebra.tla. Each event  *)
(* carries the contents of all vectors after the call; `rtol' is 0 for     *)
(* data chosen so that all the operations are exact.                       *)
EXTENDS Algebra, TraceBase
tvars == <<avars, l>>

Same(v, w, scale) == IF Ev.rtol = "0" THEN VEq(v, w) ELSE VClose(v, w, Ev.rtol, scale)
Biggest == LET RECURSIVE M(_)
               M(k) == IF k = 0 THEN F1 ELSE FMax(VNormInf(vec[k]), M(k - 1))
           IN M(Len(vec))
(* Magnitude of the terms which are summed up. *)
Mag == LET b == Biggest IN FMul(FMul(b, FMul(b, b)), "64.0")
Dst == IF "d" \in DOMAIN Ev THEN Ev.d ELSE 0
Observed ==
  /\ DOMAIN vec' = DOMAIN Ev.vecs
  /\ \A v \in DOMAIN vec' : IF v = Dst THEN Same(vec'[v], Ev.vecs[v], Mag) ELSE VEq(vec'[v], Ev.vecs[v])
  /\ Ev.guard = 1
  /\ Ev.h1 = called'["h1"] /\ Ev.h2 = called'["h2"]
Ret(x) == IF Ev.rtol = "0" THEN FEq(Ev.ret, x) ELSE FClose(Ev.ret, x, Ev.rtol, FMul(Ev.rtol, Mag))
RetApprox(x) == FClose(Ev.ret, x, Ev.stol, "0")

TraceInit == AlgInit /\ l = 1
Reset == Is("reset") /\ vec' = <<>> /\ own' = <<>> /\ called' = [h \in Handlers |-> 0] /\ handler' = "default"
TLoad == Is("load") /\ Load([v \in DOMAIN Ev.vecs |-> VNormalise(Ev.vecs[v])], Ev.own)
Op ==
  \/ Is("vzero") /\ VZeroFill(Ev.d)
  \/ Is("vfill") /\ VFill(Ev.d, Ev.a)
  \/ Is("vcopy") /\ VCopyOp(Ev.d, Ev.x)
  \/ Is("vswap") /\ VSwapOp(Ev.d, Ev.x)
  \/ Is("vscale") /\ VScaleOp(Ev.d, Ev.a, Ev.x)
  \/ Is("vproduct") /\ VProductOp(Ev.d, Ev.x, Ev.y)
  \/ Is("vaxpby") /\ VAxpbyOp(Ev.d, Ev.a, Ev.x, Ev.b, Ev.y)
  \/ Is("vaxpbypcz") /\ VAxpbypczOp(Ev.d, Ev.a, Ev.x, Ev.b, Ev.y, Ev.c, Ev.z)
  \/ Is("vdot") /\ IF Together({Ev.d, Ev.x}) THEN Keep /\ Ret(Dot(Ev.d, Ev.x)) ELSE Misuse
  \/ Is("vdot3") /\ IF Together({Ev.d, Ev.x, Ev.y}) THEN Keep /\ Ret(Dot3(Ev.d, Ev.x, Ev.y)) ELSE Misuse
  \/ Is("vnorm1") /\ Keep /\ Ret(Norm1(Ev.d))
  \/ Is("vnorm2") /\ Keep /\ RetApprox(Norm2(Ev.d))
  \/ Is("vnorminf") /\ Keep /\ FEq(Ev.ret, NormInf(Ev.d))
TOp == Op /\ Observed
(* peek, poke, import, export; nn tells whether all the addresses are non-null *)
TPeek == /\ Is("vpeek") /\ Ev.st = PeekStatus(Ev.d, Ev.k, Ev.nn)
         /\ Ev.st = "OPK_SUCCESS" => FEq(Ev.ret, vec[Ev.d][Ev.k + 1])
         /\ Ev.st # "OPK_SUCCESS" => FEq(Ev.ret, Ev.ret0)
         /\ Keep /\ Observed
TPoke == /\ Is("vpoke") /\ Ev.st = PeekStatus(Ev.d, Ev.k, Ev.nn)
         /\ IF Ev.st = "OPK_SUCCESS" THEN Set(Ev.d, [vec[Ev.d] EXCEPT ![Ev.k + 1] = FNorm(Ev.a)]) ELSE Keep
         /\ Observed
TImport == /\ Is("vimport") /\ Ev.st = TransferStatus(Ev.d, Ev.type, Ev.n, Ev.nn)
           /\ IF Ev.st = "OPK_SUCCESS" THEN Set(Ev.d, VNormalise(Ev.buf)) ELSE Keep
           /\ Observed
TExport == /\ Is("vexport") /\ Ev.st = TransferStatus(Ev.d, Ev.type, Ev.n, Ev.nn)
           /\ VEq(Ev.buf, IF Ev.st = "OPK_SUCCESS" THEN vec[Ev.d] ELSE Ev.buf0)
           /\ Keep /\ Observed
(* error handlers *)
TSet == /\ Is("sethandler") /\ Ev.former = handler /\ SetHandler(Ev.h) /\ Ev.now = handler' /\ Observed
TThrow == Is("throw") /\ Throw /\ Ev.msg = Ev.got /\ Observed
(* the default handler ends the process, in a child here, after a message  *)
TDefault == /\ Is("throwdefault") /\ handler = "default" /\ Ev.ended # 0 /\ Ev.printed = 1
            /\ Keep /\ Observed
ToSet(s) == {s[k] : k \in DOMAIN s}
TApply == /\ Is("apply")
          /\ LET st == IF Ev.op = 0 THEN "OPK_ILLEGAL_ADDRESS"
                       ELSE ApplyStatus(Ev.mode, ToSet(Ev.methods), Ev.inp, Ev.out, Ev.d, Ev.x)
             IN /\ Ev.st = (IF st = "OPK_SUCCESS" THEN Ev.mst ELSE st)
                /\ Ev.ran = (IF st = "OPK_SUCCESS" THEN <<Ev.mode>> ELSE <<>>)
                \* the method writes the index of the mode in the destination
                /\ IF st = "OPK_SUCCESS" /\ Ev.mst = "OPK_SUCCESS" THEN VFill(Ev.d, Ev.a) ELSE Keep
          /\ Observed
TraceNext == Reset \/ TLoad \/ TOp \/ TPeek \/ TPoke \/ TImport \/ TExport \/ TSet \/ TThrow \/ TDefault \/ TApply
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==========================================================================
