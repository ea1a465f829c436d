------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* Construction of objects when memory may run out.  A construction is a   *)
(* sequence of private steps each of which allocates a block or takes a    *)
(* reference on an argument, and any allocation may fail, in which case    *)
(* everything done so far has to be undone.                                *)
(*                                                                         *)
(* The observable outcomes are the two actions Created and Refused below;  *)
(* Step, Undo refine them (checked by TLC in MCAlloc.tla).                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences
VARIABLES
  args,    \* number of references on each argument
  blocks,  \* memory blocks owned by the library beyond those of the arguments
  objs     \* number of living objects built
allvars == <<args, blocks, objs>>
AInit(a) == args = a /\ blocks = 0 /\ objs = 0
(* No allocation failed: the object exists, with some memory, and may hold its arguments. *)
Created(a, b) ==
  /\ \A k \in DOMAIN args : a[k] >= args[k]
  /\ b >= 1
  /\ args' = a /\ blocks' = blocks + b /\ objs' = objs + 1
(* An allocation failed: nothing has changed. *)
Refused == UNCHANGED allvars
(* The only object built is destroyed: everything is as before its creation. *)
Destroyed(a) ==
  /\ objs = 1 /\ objs' = 0 /\ blocks' = 0 /\ args' = a
=============================================================================
