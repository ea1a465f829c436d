-------------------------------- MODULE Box --------------------------------
(***************************************************************************)
(* Bound constraints (opk_new_boxset and the operations on convex sets).   *)
(*                                                                         *)
(* A bound is absent, a scalar, a vector of the space (shared with the     *)
(* client, who may change it afterwards), or a private copy of an array.   *)
(* Component by component, the operations are given by Clip, ProjDir, Free *)
(* and Reach below; MCBox.tla checks that these definitions have the       *)
(* geometrical meaning that users rely on.                                 *)
(***************************************************************************)
EXTENDS Algebra, Bounds

VARIABLES box,    \* the bound sets: function from identifiers to pairs of bounds
          prec    \* precision of the vectors of each space: "float" or "double"
bvars == <<avars, box, prec>>

Round(s, a) == IF prec[s] = "float" THEN FRnd32(a) ELSE FNorm(a)
NoBound == [k |-> "none", v |-> 0]
(* Bounds at component i. *)
Lower(b, i) == CASE b.k = "none" -> "-inf" [] b.k = "scalar" -> b.v
                 [] b.k = "vector" -> vec[b.v][i] [] b.k = "copy" -> b.v[i]
Upper(b, i) == CASE b.k = "none" -> "inf" [] b.k = "scalar" -> b.v
                 [] b.k = "vector" -> vec[b.v][i] [] b.k = "copy" -> b.v[i]

-----------------------------------------------------------------------------
(* Creation of a bound set.  A bound is described by its type and whether  *)
(* an address was given.                                                   *)
ScalarTypes == {"SCALAR_FLOAT", "SCALAR_DOUBLE"}
ArrayTypes == {"STATIC_FLOAT", "STATIC_DOUBLE", "VOLATILE_FLOAT", "VOLATILE_DOUBLE"}
BoundStatus(s, type, addr, v) ==
  CASE type = "NONE" -> IF addr THEN "EINVAL" ELSE "ok"
    [] type \in ScalarTypes \cup ArrayTypes -> IF addr THEN "ok" ELSE "EFAULT"
    [] type = "VECTOR" -> IF ~addr THEN "EFAULT" ELSE IF own[v] # s THEN "EINVAL" ELSE "ok"
    [] OTHER -> "EINVAL"
(* The first problem is reported. *)
BoxStatus(s, lt, la, lv, ut, ua, uv) ==
  IF BoundStatus(s, lt, la, lv) # "ok" THEN BoundStatus(s, lt, la, lv) ELSE BoundStatus(s, ut, ua, uv)
(* value: a number, a vector or the contents of an array *)
MakeBound(s, type, v) ==
  CASE type = "NONE" -> NoBound
    [] type \in ScalarTypes -> [k |-> "scalar", v |-> Round(s, v)]
    [] type = "VECTOR" -> [k |-> "vector", v |-> v]
    [] type \in ArrayTypes -> [k |-> "copy", v |-> [i \in DOMAIN v |-> Round(s, v[i])]]
NewBox(b, s, lt, lv, ut, uv) ==
  /\ box' = (b :> [lo |-> MakeBound(s, lt, lv), up |-> MakeBound(s, ut, uv), s |-> s]) @@ box
  /\ UNCHANGED <<avars, prec>>

-----------------------------------------------------------------------------
OpStatus(b, vs) ==
  IF b = 0 \/ 0 \in vs THEN "OPK_ILLEGAL_ADDRESS"
  ELSE IF \E v \in vs : own[v] # box[b].s THEN "OPK_BAD_SPACE" ELSE "OPK_SUCCESS"

Lo(b, i) == Lower(box[b].lo, i)
Up(b, i) == Upper(box[b].up, i)
ProjVarValue(x, b) == Map(x, LAMBDA i : Clip(vec[x][i], Lo(b, i), Up(b, i)))
ProjDirValue(x, b, d, o) == Map(x, LAMBDA i : ProjDir(vec[x][i], Lo(b, i), Up(b, i), vec[d][i], o))
FreeValue(x, b, d, o) == Map(x, LAMBDA i : Free(vec[x][i], Lo(b, i), Up(b, i), vec[d][i], o))
Reaches(x, b, d, o) == Map(x, LAMBDA i : Reach(vec[x][i], Lo(b, i), Up(b, i), vec[d][i], o))
IsFeasible(x, b) == \A i \in DOMAIN vec[x] : Feasible(vec[x][i], Lo(b, i), Up(b, i))
Absent(b) == box[b].lo.k = "none" /\ box[b].up.k = "none"
=============================================================================
