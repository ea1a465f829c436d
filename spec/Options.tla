------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Options of the optimizers (nlcg.c, vmlmb.c, driver.c): which sets are   *)
(* valid, what creation makes of them, and the texts which describe the    *)
(* optimizer.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, F64

NonNeg(x) == FFinite(x) /\ FGe(x, F0)
CommonValid(o) ==
  /\ NonNeg(o.gatol) /\ NonNeg(o.grtol)
  /\ FFinite(o.delta) /\ FGt(o.delta, F0)
  /\ NonNeg(o.eps) /\ FLt(o.eps, F1)
  /\ NonNeg(o.stpmin) /\ FFinite(o.stpmax) /\ FLt(o.stpmin, o.stpmax)
Bit(k, n) == (k \div n) % 2 = 1
Rule(flags) == flags % 256
ValidNlcg(o) ==
  /\ CommonValid(o)
  /\ o.fg # 0 => FFinite(o.fmin)
  /\ o.flags = 0 \/ Rule(o.flags) \in 1 .. 8
ValidVmlmb(o) == CommonValid(o) /\ o.mem >= 1
Check(valid) == IF valid THEN "OPK_SUCCESS" ELSE "OPK_INVALID_ARGUMENT"

(* Creation: the reason of a refusal ("" if accepted). *)
Refusal(valid, space, foreign) ==
  IF ~valid THEN "EINVAL" ELSE IF ~space THEN "EFAULT" ELSE IF foreign THEN "EINVAL" ELSE ""
DriverRefusal(valid, n) == IF n < 1 \/ ~valid THEN "EINVAL" ELSE ""

Defaults == [delta |-> FNorm("5e-2"), eps |-> F0, gatol |-> F0, grtol |-> FNorm("1e-6"), stpmin |-> FNorm("1e-20"), stpmax |-> FNorm("1e20")]
DefaultFlags == 3 + 256 + 512       \* Polak, Ribiere & Polyak, Powell, Shanno & Phua
DefaultNlcg == Defaults @@ [flags |-> DefaultFlags, fg |-> 0, fmin |-> F0]
DefaultVmlmb == Defaults @@ [mem |-> 5, blmvm |-> 0, save |-> 1]

-----------------------------------------------------------------------------
(* Texts (non ASCII bytes are seen as question marks). *)
RuleText == <<"Fletcher & Reeves", "Hestenes & Stiefel", "Polak, Ribi??re & Polyak", "Fletcher conjugate descent",
              "Liu & Storey", "Dai & Yuan", "Perry & Shanno", "Hager & Zhang">>
NlcgText(flags) ==
  LET k == IF flags = 0 THEN DefaultFlags ELSE flags IN
  RuleText[Rule(k)] \o " updates" \o
  (IF Bit(k, 256) THEN " with Powell restarts" ELSE "") \o
  (IF Bit(k, 512) THEN (IF Bit(k, 256) THEN " and" ELSE " with") \o " Shanno & Phua step size" ELSE "")
MinI(a, b) == IF a < b THEN a ELSE b
VmlmbText(mem, n, bounded) ==
  "variable metric method with " \o ToString(MinI(mem, n)) \o " memorized step(s)" \o (IF bounded THEN " and bounds" ELSE "")
(* The variant: L-BFGS without bounds, BLMVM or VMLMB with bounds. *)
MethodName(bounded, blmvm) == IF ~bounded THEN "VMLM/L-BFGS" ELSE IF blmvm THEN "BLMVM" ELSE "VMLMB"
MethodCode(bounded, blmvm) == IF ~bounded THEN 0 ELSE IF blmvm THEN 2 ELSE 1

(* A text is copied in a buffer of a given size: what is returned, and the *)
(* contents of the buffer, always a terminated string if there is room.    *)
Required(text) == Len(text) + 1
Written(text, size) == SubSeq(text, 1, MinI(Len(text), size - 1))
Copied(text, e) ==
  /\ e.ret = Required(text)
  /\ e.guard
  /\ e.term = (e.size >= 1 /\ ~e.null)
  /\ (e.size >= 1 /\ ~e.null) => e.buf = Written(text, e.size)
=============================================================================
