------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Vectors and their operations (algebra.c, simple_vector.c).              *)
(*                                                                         *)
(* vec[v] is the contents of vector v, own[v] the space it belongs to.     *)
(* Every operation first checks that its operands belong to one space; if  *)
(* not, the installed error handler is called once and nothing changes.    *)
(* Otherwise the destination takes the value given by the elementwise      *)
(* definition and nothing else changes.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

VARIABLES
  vec,      \* contents of the vectors, a function of their identifiers
  own,      \* space of each vector
  handler,  \* the installed error handler: "default" or the name of another
  called    \* for each handler of the client, number of calls received

avars == <<vec, own, handler, called>>
Handlers == {"h1", "h2"}

AlgInit == vec = <<>> /\ own = <<>> /\ handler = "default" /\ called = [h \in Handlers |-> 0]

(* The client creates vectors with the given contents. *)
Load(v, o) == vec' = v /\ own' = o /\ UNCHANGED <<handler, called>>

Together(S) == \A v, w \in S : own[v] = own[w]
(* A misuse is reported to the installed handler, once. *)
Report == handler \in Handlers /\ called' = [called EXCEPT ![handler] = @ + 1]
Misuse == Report /\ UNCHANGED <<vec, own, handler>>
Set(d, v) == vec' = [vec EXCEPT ![d] = v] /\ UNCHANGED <<own, handler, called>>
Keep == UNCHANGED avars

Size(v) == Len(vec[v])
Map(v, F(_)) == [i \in 1 .. Size(v) |-> F(i)]

VFill(d, a) == Set(d, Map(d, LAMBDA i : FNorm(a)))
VZeroFill(d) == VFill(d, F0)
VCopyOp(d, x) == IF Together({d, x}) THEN Set(d, vec[x]) ELSE Misuse
VScaleOp(d, a, x) == IF Together({d, x}) THEN Set(d, VScale(a, vec[x])) ELSE Misuse
VSwapOp(x, y) ==
  IF Together({x, y})
  THEN vec' = [vec EXCEPT ![x] = vec[y], ![y] = vec[x]] /\ UNCHANGED <<own, handler, called>>
  ELSE Misuse
VProductOp(d, x, y) == IF Together({d, x, y}) THEN Set(d, VMul(vec[x], vec[y])) ELSE Misuse

Axpby(a, x, b, y) == [i \in 1 .. Len(x) |-> FAdd(FMul(a, x[i]), FMul(b, y[i]))]
Axpbypcz(a, x, b, y, c, z) ==
  [i \in 1 .. Len(x) |-> FAdd(FAdd(FMul(a, x[i]), FMul(b, y[i])), FMul(c, z[i]))]
VAxpbyOp(d, a, x, b, y) ==
  IF Together({d, x, y}) THEN Set(d, Axpby(a, vec[x], b, vec[y])) ELSE Misuse
VAxpbypczOp(d, a, x, b, y, c, z) ==
  IF Together({d, x, y, z}) THEN Set(d, Axpbypcz(a, vec[x], b, vec[y], c, vec[z])) ELSE Misuse

(* Values returned by the operations which only read vectors. *)
Dot(x, y) == VDot(vec[x], vec[y])
Dot3(w, x, y) == VDot(VMul(vec[w], vec[x]), vec[y])
Norm1(x) == VSum([i \in 1 .. Size(x) |-> FAbs(vec[x][i])])
Norm2(x) == VNorm2(vec[x])
NormInf(x) == VNormInf(vec[x])

(* Accesses to elements and arrays. *)
InRange(v, k) == 0 <= k /\ k < Size(v)
PeekStatus(v, k, nonnull) ==
  IF ~nonnull THEN "OPK_ILLEGAL_ADDRESS"
  ELSE IF ~InRange(v, k) THEN "OPK_OUT_OF_BOUNDS_INDEX" ELSE "OPK_SUCCESS"
(* type: "float", "double" or anything else *)
TransferStatus(v, type, n, nonnull) ==
  IF ~nonnull THEN "OPK_ILLEGAL_ADDRESS"
  ELSE IF type \notin {"float", "double"} \/ n # Size(v) THEN "OPK_INVALID_ARGUMENT"
  ELSE "OPK_SUCCESS"

(* Error handlers. *)
SetHandler(h) == handler' = (IF h = "null" THEN "default" ELSE h) /\ UNCHANGED <<vec, own, called>>
Throw == Report /\ UNCHANGED <<vec, own, handler>>

(* Operators: a table of three optional methods between two spaces. *)
ApplyStatus(mode, methods, inp, out, dst, src) ==
  LET d == IF mode = "direct" THEN out ELSE inp
      s == IF mode = "direct" THEN inp ELSE out
  IN IF dst = 0 \/ src = 0 THEN "OPK_ILLEGAL_ADDRESS"
     ELSE IF own[dst] # d \/ own[src] # s THEN "OPK_BAD_SPACE"
     ELSE IF mode \notin methods THEN "OPK_NOT_IMPLEMENTED"
     ELSE "OPK_SUCCESS"
=============================================================================
