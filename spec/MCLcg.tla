------------------------------- MODULE MCLcg -------------------------------
(***************************************************************************)
(* A client of the conjugate gradients: any kind of problem, begun from    *)
(* zero or from a point, pursued, begun again at any time, with stages or  *)
(* radii which make no sense.  What it does is printed to be replayed.     *)
(***************************************************************************)
EXTENDS Lcg, Sequences, TLC, Json
CONSTANTS Depth, Emit
VARIABLES hist, done
mcvars == <<cg, hist, done>>
MCInit == \E p, t \in BOOLEAN : LInit(p, t) /\ hist = <<<<"problem", p, t>>>> /\ done = FALSE
Log(c) == hist' = Append(hist, c) /\ UNCHANGED done
Call == \/ FromZero \/ (\E i \in BOOLEAN : FromX(i)) \/ AskPrecond \/ (\E s \in {-1, 0, 1} : Direction(s)) \/ Residuals
        \/ (\E s \in {-1, 0, 1}, w \in {"inside", "on", "outside", "nowhere"} : Step(s, w)) \/ Nothing \/ Wrong
Do == \/ Call /\ Log(<<"call", 1>>)
      \/ \E h \in {Start, Restart} : Begin(h) /\ Log(<<"begin", h>>)
      \/ Begin(Restart) /\ Log(<<"again", 0>>)
      \/ \E s \in {-1, 8, 99, -7, Truncated} : cg' = [cg EXCEPT !.stage = s, !.first = FALSE] /\ Log(<<"stage", s>>)
      \/ BadRadius /\ cg.tr /\ Log(<<"radius", 0>>)
Stop == Len(hist) >= Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<cg, hist>> /\ (Emit => PrintT(ToJson(hist)))
MCNext == (Len(hist) < Depth /\ Do) \/ Stop
MCSpec == MCInit /\ [][MCNext]_mcvars
(* Once it is over, nothing happens but what the client decides; a step is *)
(* taken only along a direction whose product has been computed.           *)
Stays == [][(cg.stage \in Over /\ cg'.stage # cg.stage) => (hist' # hist /\ (hist'[Len(hist')][1] \in {"begin", "again", "stage", "radius"} \/ cg'.stage = Error))]_mcvars
StepsOnProducts == [][cg'.moved > cg.moved => cg.stage = AP /\ ~cg.first]_mcvars
Legal(s, t) == \/ t = Error
               \/ s \in Over /\ t = s
               \/ s = AP /\ t \in {NewX} \cup Over
               \/ s \in {NewX, Precond} /\ t \in {Precond, AP} \cup Over
               \/ s \in {Start, Restart} /\ t \in {NewX, AP, Truncated}
Last == hist'[Len(hist')][1]
Forward == [][(hist' # hist /\ Last = "call") => Legal(cg.stage, cg'.stage)]_mcvars
View == <<cg, done, Len(hist)>>
=============================================================================
