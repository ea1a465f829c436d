------------------------------ MODULE MCCobyla ------------------------------
(***************************************************************************)
(* The machine of Cobyla.tla closed with every function which answers from *)
(* a small set: all behaviours of the first Longest evaluations.  The      *)
(* answers are printed to be given to the implementation.                  *)
(***************************************************************************)
EXTENDS Cobyla, TLC, Json
CONSTANTS N, M, Longest, Emit
VARIABLES h, asked, hist
mcvars == <<h, asked, hist>>
Fs == IF M = 0 THEN 0 .. 3 ELSE 0 .. 1
Cs == IF M = 0 THEN {<<>>} ELSE [1 .. M -> {1, 3}]
Val(k) == FSub(FNum(k, 1), FNum(2, 1)) (* -1 or 1 *)
Begin == Start(N, M, F1, Half, VZero(N))
MCInit == h = Begin /\ asked = <<>> /\ hist = <<>>
(* the point evaluated for a demand *)
Point(w) == CASE w.kind = "first" -> w.h.start
              [] w.kind = "axis" -> VForce(VAxpy(w.h.rho, Axis(N, w.j), w.h.pole.x))
              [] w.kind = "geometry" -> VForce(VAdd(w.h.pole.x, w.d))
              [] OTHER -> LET D == {d \in w.t.mins : FGe(VNorm2(d), FMul(Half, w.h.rho))} IN VForce(VAdd(w.h.pole.x, CHOOSE d \in D : TRUE))
Open(w) == w.kind \notin {"stop", "lost"}
MCNext ==
  /\ Len(hist) < Longest
  /\ \E w \in Wants(h) : /\ (Open(w) /\ (w.kind = "step" => \E d \in w.t.mins : FGe(VNorm2(d), FMul(Half, w.h.rho)))) = TRUE
       /\ \E f \in Fs, c \in Cs :
            LET x == Point(w) IN
            /\ h' \in Learn(w, x, [k \in 1 .. M |-> Val(c[k])], FNum(f, 1))
            /\ asked' = <<w, x>>
            /\ hist' = Append(hist, [f |-> f, c |-> [k \in 1 .. M |-> c[k] - 2]])
MCSpec == MCInit /\ [][MCNext]_mcvars
(* what is explored twice is the same *)
View == <<h, IF asked = <<>> THEN "" ELSE asked[1].kind, hist>>

Radius == FGe(h.rho, h.end) /\ FLe(h.rho, F1)
RadiusFalls == [][FLe(h'.rho, h.rho)]_mcvars
Penalty == FGe(h.lo, F0) /\ FLe(h.lo, h.hi) /\ (M = 0 => h.hi = F0)
(* a step stays within the trust region, and is not negligible *)
StepFits == asked # <<>> /\ asked[1].kind = "step" =>
  LET d == VNorm2(VForce(VSub(asked[2], asked[1].h.pole.x))) IN FLe(d, FMul(asked[1].h.rho, More(Eps6))) /\ FGe(d, FMul(FMul(Half, asked[1].h.rho), Less(Eps6)))
(* a step is predicted to be an improvement *)
StepHopes == asked # <<>> /\ asked[1].kind = "step" => FLe(asked[1].t.least, asked[1].h.pole.cv)
(* after a geometry step, the new vertex is at the right distance of the face of the others *)
GeometryHelps == asked # <<>> /\ asked[1].kind = "geometry" =>
  LET s == Shape([h EXCEPT !.pole = asked[1].h.pole, !.oth = [asked[1].h.oth EXCEPT ![asked[1].j] = Vertex(asked[2], <<>>, F0)]])
  IN Close(s.sig[asked[1].j], FMul(GammaC, asked[1].h.rho), FMul(Eps9, asked[1].h.rho))
(* geometry and trust region steps alternate *)
Alternate == [][~(asked' # asked /\ asked # <<>> /\ asked[1].kind = "geometry" /\ asked'[1].kind = "geometry" /\ asked[1].h.rho = asked'[1].h.rho /\ asked[1].h.pole = asked'[1].h.pole /\ asked[1].j = asked'[1].j /\ asked[2] = asked'[2])]_mcvars
(* without constraint, the pole is never worse than any vertex when a step is made *)
PoleIsBest == asked # <<>> /\ asked[1].kind \in {"step", "geometry"} /\ asked[1].h.hi = F0 => \A j \in DOMAIN asked[1].h.oth : ~Before(asked[1].h.oth[j], asked[1].h.pole)
(* the least value found is never dropped from the simplex *)
LeastKept == M = 0 /\ Len(hist) > 0 => \E p \in {h.pole} \cup {h.oth[j] : j \in DOMAIN h.oth} : \A k \in DOMAIN hist : FLe(p.f, FNum(hist[k].f, 1))
(* there is always something to do *)
Decided == Wants(h) # {}
NeverLost == \A w \in Wants(h) : w.kind # "lost"
Out == Emit /\ Len(hist) = Longest => PrintT(ToJson(hist))
=============================================================================
