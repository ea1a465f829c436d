-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* Vectors wrapping memory of the client (opk_wrap_simple_*_vector and     *)
(* opk_rewrap_simple_*_vector): which memory a vector refers to and when   *)
(* the release callback of a registration is called.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS V,       \* vectors
          M,       \* client's arrays
          N        \* size of the space
VARIABLES
  reg,    \* registration of each vector: array, callback (0: none) and client datum
  refs,   \* references held by the client; a destroyed vector has 0
  mem,    \* contents of the arrays
  owed,   \* per callback and datum, number of registrations not yet released
  hist    \* history of calls (for the generation of behaviours)
wvars == <<reg, refs, mem, owed>>
None == [m |-> 0, cb |-> 0, cd |-> 0]
Cb == 0 .. 2
Cd == 0 .. 2
Zero == [i \in 1 .. N |-> 0]
WInit == /\ reg = [v \in V |-> None] /\ refs = [v \in V |-> 0]
         /\ mem = [m \in M |-> Zero] /\ owed = [c \in (Cb \X Cd) |-> 0]
Alive(v) == refs[v] > 0
Plus(o, r, n) == IF r.cb = 0 THEN o ELSE [o EXCEPT ![<<r.cb, r.cd>>] = @ + n]
Minus(o, r) == IF r.cb = 0 THEN o ELSE [o EXCEPT ![<<r.cb, r.cd>>] = @ - 1]
(* calls of the callback made by dropping registration r *)
Release(r) == IF r.cb = 0 THEN <<>> ELSE << <<r.cb, r.cd>> >>

(* Each action comes with the calls of callbacks it makes. *)
WrapCalls == <<>>
DoWrap(v, m, cb, cd) ==
  /\ ~Alive(v)
  /\ reg' = [reg EXCEPT ![v] = [m |-> m, cb |-> cb, cd |-> cd]]
  /\ refs' = [refs EXCEPT ![v] = 1]
  /\ owed' = Plus(owed, reg'[v], 1)
  /\ UNCHANGED mem
RewrapCalls(v, cb, cd) ==
  IF reg[v].cb # cb \/ reg[v].cd # cd THEN Release(reg[v]) ELSE <<>>
DoRewrap(v, m, cb, cd) ==
  /\ Alive(v)
  /\ reg' = [reg EXCEPT ![v] = [m |-> m, cb |-> cb, cd |-> cd]]
  /\ owed' = IF reg[v].cb # cb \/ reg[v].cd # cd THEN Plus(Minus(owed, reg[v]), reg'[v], 1) ELSE owed
  /\ UNCHANGED <<refs, mem>>
DoHold(v) == Alive(v) /\ refs' = [refs EXCEPT ![v] = @ + 1] /\ UNCHANGED <<reg, mem, owed>>
DropCalls(v) == IF refs[v] = 1 THEN Release(reg[v]) ELSE <<>>
DoDrop(v) ==
  /\ Alive(v)
  /\ refs' = [refs EXCEPT ![v] = @ - 1]
  /\ reg' = IF refs[v] = 1 THEN [reg EXCEPT ![v] = None] ELSE reg
  /\ owed' = IF refs[v] = 1 THEN Minus(owed, reg[v]) ELSE owed
  /\ UNCHANGED mem
(* Using the vector uses the array it refers to now. *)
Contents(v) == mem[reg[v].m]
Write(v, x) == mem' = [mem EXCEPT ![reg[v].m] = x] /\ UNCHANGED <<reg, refs, owed>>
DoFill(v, a) == Alive(v) /\ Write(v, [i \in 1 .. N |-> a])
DoPoke(v, k, a) == Alive(v) /\ Write(v, [Contents(v) EXCEPT ![k] = a])
DoCopy(v, w) == Alive(v) /\ Alive(w) /\ Write(v, Contents(w))

-----------------------------------------------------------------------------
TypeOK == \A v \in V : Alive(v) <=> reg[v].m \in M
(* A registration is owed to the client exactly while some vector has it. *)
Owed == \A c \in Cb \X Cd : c[1] > 0 =>
          owed[c] = Cardinality({v \in V : reg[v].cb = c[1] /\ reg[v].cd = c[2] /\ Alive(v)})
=============================================================================
