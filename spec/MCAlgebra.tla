---------------------------- MODULE MCAlgebra ----------------------------
(* Enumeration of the calls to replay: every operation, every pattern of   *)
(* aliasing and every class of scalars.  Vectors 1..3 belong to one space, *)
(* 4 and 5 to another one.                                                 *)
EXTENDS Algebra, Json
CONSTANTS Scalars, Mix
VARIABLE todo
A == 1 .. 3
AllV == 1 .. 5
Foreign(S) == \E v, w \in S : (v \in A) # (w \in A)
V == IF Mix THEN AllV ELSE A
OK(S) == Foreign(S) = Mix
Un == {<<op, d>> : op \in {"vzero"}, d \in A} \cup {<<"vfill", d, a>> : d \in A, a \in Scalars}
      \cup {<<op, x>> : op \in {"vnorm1", "vnorm2", "vnorminf"}, x \in A}
Bin == {<<op, d, x>> : op \in {"vcopy", "vswap", "vdot"}, d \in V, x \in V}
       \cup {<<"vscale", d, a, x>> : d \in V, a \in Scalars, x \in V}
Ter == {<<op, d, x, y>> : op \in {"vproduct", "vdot3"}, d \in V, x \in V, y \in V}
       \cup {<<"vaxpby", d, a, x, b, y>> : d \in V, a \in Scalars, x \in V, b \in Scalars, y \in V}
Vecs(c) == CASE c[1] = "vscale" -> {c[2], c[4]}
             [] c[1] = "vaxpby" -> {c[2], c[4], c[6]}
             [] c[1] = "vaxpbypcz" -> {c[2], c[4], c[6], c[8]}
             [] c[1] = "vfill" -> {c[2]}
             [] OTHER -> {c[k] : k \in 2 .. Len(c)}
Quat == {<<"vaxpbypcz", d, a, x, b, y, c, z>> :
           d \in V, a \in Scalars, x \in V, b \in Scalars, y \in V, c \in Scalars, z \in V}
Calls == {c \in (IF Mix THEN {} ELSE Un) \cup Bin \cup Ter \cup Quat : OK(Vecs(c))}
MCInit == AlgInit /\ todo \in {1}
MCNext == todo = 1 /\ (\A c \in Calls : PrintT(ToJson(c))) /\ todo' = 0 /\ UNCHANGED avars
MCSpec == MCInit /\ [][MCNext]_<<avars, todo>>
==========================================================================
