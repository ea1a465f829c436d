------------------------------- MODULE MCAlloc -------------------------------
(* A constructor as the code performs it, with any allocation failing, and   *)
(* why undoing in reverse order gives the two outcomes of Alloc.tla.         *)
EXTENDS Alloc, FiniteSets, TLC
CONSTANTS NArgs, MaxSteps
VARIABLES pc, done, a0
mvars == <<allvars, pc, done, a0>>
Args == 1 .. NArgs
\* work in progress: sequence of steps done ("alloc" or an argument retained)
MCInit == AInit([k \in Args |-> 1]) /\ pc = "idle" /\ done = <<>> /\ a0 = [k \in Args |-> 1]
Begin == pc = "idle" /\ objs = 0 /\ pc' = "building" /\ done' = <<>> /\ a0' = args /\ UNCHANGED allvars
AllocOK == /\ pc = "building" /\ Len(done) < MaxSteps
           /\ blocks' = blocks + 1 /\ done' = Append(done, 0) /\ UNCHANGED <<args, objs, pc, a0>>
Retain(k) == /\ pc = "building" /\ Len(done) < MaxSteps /\ Len(done) > 0
             /\ args' = [args EXCEPT ![k] = @ + 1] /\ done' = Append(done, k) /\ UNCHANGED <<blocks, objs, pc, a0>>
AllocFails == pc = "building" /\ pc' = "undoing" /\ UNCHANGED <<allvars, done, a0>>
Finish == pc = "building" /\ Len(done) > 0 /\ pc' = "idle" /\ objs' = objs + 1 /\ UNCHANGED <<args, blocks, done, a0>>
Undo == /\ pc = "undoing" /\ Len(done) > 0
        /\ LET s == done[Len(done)] IN
             IF s = 0 THEN blocks' = blocks - 1 /\ UNCHANGED args
             ELSE args' = [args EXCEPT ![s] = @ - 1] /\ UNCHANGED blocks
        /\ done' = SubSeq(done, 1, Len(done) - 1) /\ UNCHANGED <<objs, pc, a0>>
Failed == pc = "undoing" /\ done = <<>> /\ pc' = "refused" /\ UNCHANGED <<allvars, done, a0>>
Again == pc = "refused" /\ pc' = "idle" /\ UNCHANGED <<allvars, done, a0>>
Destroy == /\ pc = "idle" /\ objs = 1 /\ objs' = 0 /\ args' = a0 /\ blocks' = 0 /\ done' = <<>> /\ UNCHANGED <<pc, a0>>
MCNext == Begin \/ AllocOK \/ (\E k \in Args : Retain(k)) \/ AllocFails \/ Finish \/ Undo \/ Failed \/ Again \/ Destroy
MCSpec == MCInit /\ [][MCNext]_mvars
RefusedIsClean == pc = "refused" => args = a0 /\ blocks = 0 /\ objs = 0
CreatedHolds == (pc = "idle" /\ objs = 1) => blocks >= 1 /\ \A k \in Args : args[k] >= a0[k]
===============================================================================
