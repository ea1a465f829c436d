------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* Reference-counted objects of OptimPack (algebra.c): who holds what, and *)
(* when an object is destroyed.                                            *)
(*                                                                         *)
(* One action per public call that creates, holds or drops an object.  An  *)
(* object is destroyed at the very call that releases its last reference,  *)
(* which in turn releases the references it holds, and so on.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANT Id            \* identifiers of the objects visible to the client

VARIABLES
  kind,     \* Id -> kind of the object, "none" if never created, "dead" once destroyed
  space,    \* Id -> space of a vector, box, optimizer; input space of an operator (0 if none)
  client,   \* Id -> number of references held by the client
  held,     \* Id -> (Id -> number of references held by the object on another one)
  hist      \* history of calls (hidden by VIEW; used to generate behaviours)

ovars == <<kind, space, client, held>>

Kinds == {"space", "vector", "wrapped", "box", "oper", "lnsrch", "vmlmb", "nlcg"}
IsVec(k) == k \in {"vector", "wrapped"}
IsOpt(k) == k \in {"vmlmb", "nlcg"}
Live(o) == kind[o] \in Kinds

Zero == [o \in Id |-> 0]
SumOver(S, h, o) == MapThenSumSet(LAMBDA p : h[p][o], S)

(* Number of references to o, the objects in `live' being alive. *)
RefsIn(cl, h, live, o) == cl[o] + SumOver(live, h, o)
LiveSet == {o \in Id : Live(o)}
Refs(o) == RefsIn(client, held, LiveSet, o)

(* Objects destroyed when the client's references become cl and the others *)
(* h: the least fixpoint of "no reference from the client or a live one".  *)
RECURSIVE Collect(_, _, _)
Collect(cl, h, live) ==
  LET dying == {o \in live : RefsIn(cl, h, live, o) = 0}
  IN IF dying = {} THEN live ELSE Collect(cl, h, live \ dying)

ObjInit ==
  /\ kind = [o \in Id |-> "none"]
  /\ space = Zero
  /\ client = Zero
  /\ held = [o \in Id |-> Zero]

Add(f, o, n) == IF o = 0 THEN f ELSE [f EXCEPT ![o] = @ + n]

(* Creation of object o of kind k in space s, holding h. *)
Create(o, k, s, h) ==
  /\ kind[o] = "none"
  /\ kind' = [kind EXCEPT ![o] = k]
  /\ space' = [space EXCEPT ![o] = s]
  /\ client' = [client EXCEPT ![o] = 1]
  /\ held' = [held EXCEPT ![o] = h]

IsSpace(s) == s \in Id /\ kind[s] = "space"
VecIn(v, s) == v \in Id /\ Live(v) /\ IsVec(kind[v]) /\ space[v] = s

NewSpace(o) == Create(o, "space", 0, Zero)
NewVector(o, s) == IsSpace(s) /\ Create(o, "vector", s, Add(Zero, s, 1))
NewWrapped(o, s) == IsSpace(s) /\ Create(o, "wrapped", s, Add(Zero, s, 1))
(* lo, up: vectors used as bounds, or 0 for a bound of another type.  The  *)
(* box holds its space n times, directly and through private copies of     *)
(* volatile bounds.                                                        *)
NewBox(o, s, lo, up, n) ==
  /\ IsSpace(s) /\ n >= 1
  /\ lo = 0 \/ VecIn(lo, s)
  /\ up = 0 \/ VecIn(up, s)
  /\ Create(o, "box", s, Add(Add(Add(Zero, s, n), lo, 1), up, 1))
NewOper(o, s, t) ==
  /\ IsSpace(s) /\ IsSpace(t)
  /\ Create(o, "oper", s, Add(Add(Zero, s, 1), t, 1))
NewLnsrch(o) == Create(o, "lnsrch", 0, Zero)
(* An optimizer holds its line search and bound set, and its space n times *)
(* (directly and through its private work vectors), n being an             *)
(* implementation choice.                                                  *)
NewOpt(o, k, s, l, b, n) ==
  /\ IsSpace(s) /\ n >= 1
  /\ l = 0 \/ (l \in Id /\ kind[l] = "lnsrch")
  /\ b = 0 \/ (b \in Id /\ kind[b] = "box" /\ space[b] = s /\ k = "vmlmb")
  /\ Create(o, k, s, Add(Add(Add(Zero, s, n), l, 1), b, 1))

(* Running an optimizer may only change the number of its work vectors. *)
RunOpt(o, x, n) ==
  /\ Live(o) /\ IsOpt(kind[o]) /\ VecIn(x, space[o]) /\ n >= 1
  /\ held' = [held EXCEPT ![o][space[o]] = n]
  /\ UNCHANGED <<kind, space, client>>

Hold(o) ==
  /\ Live(o) /\ client[o] > 0
  /\ client' = [client EXCEPT ![o] = @ + 1]
  /\ UNCHANGED <<kind, space, held>>

Drop(o) ==
  /\ Live(o) /\ client[o] > 0
  /\ LET cl == [client EXCEPT ![o] = @ - 1]
         alive == Collect(cl, held, LiveSet)
     IN /\ client' = cl
        /\ kind' = [p \in Id |-> IF Live(p) /\ p \notin alive THEN "dead" ELSE kind[p]]
        /\ held' = [p \in Id |-> IF p \in alive THEN held[p] ELSE Zero]
        /\ UNCHANGED space

-----------------------------------------------------------------------------
TypeOK ==
  /\ kind \in [Id -> Kinds \cup {"none", "dead"}]
  /\ client \in [Id -> Nat]

(* Nothing alive refers to something destroyed. *)
NoDangling == \A p \in LiveSet : \A o \in Id : held[p][o] > 0 => Live(o)
(* Whatever the client holds is alive. *)
ClientHoldsLive == \A o \in Id : client[o] > 0 => Live(o)
(* Everything alive is held by somebody. *)
NoLeak == \A o \in LiveSet : Refs(o) > 0
(* Nothing survives the client's last reference. *)
AllGone == (\A o \in Id : client[o] = 0) => LiveSet = {}
(* A destroyed object never comes back. *)
DeadForever == [][\A o \in Id : kind[o] = "dead" => kind'[o] = "dead"]_ovars
=============================================================================
