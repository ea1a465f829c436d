------------------------------- MODULE Cobyla -------------------------------
(***************************************************************************)
(* Powell's COBYLA (cobyla.c): a simplex of n+1 points moves in the space  *)
(* of the variables.  The best of its vertices (for the merit function     *)
(* f + mu * violation) is the pole; the objective and the constraints are  *)
(* replaced by the linear functions which interpolate them at the          *)
(* vertices.  An evaluation is made at                                     *)
(*   - the starting point and its neighbours along the axes, then          *)
(*   - a trust region step: the greatest violation predicted is made as    *)
(*     small as possible within rho of the pole, then the objective,       *)
(*   - a geometry step: a vertex too far from the pole, or too close to    *)
(*     the face of the others, is replaced by a point at rho/2 of this     *)
(*     face, the side being the one of the least predicted merit.          *)
(* The simplex is described by the positions of its vertices: oth[j] is    *)
(* the j-th vertex, Height(j) the part of the edge from the pole to it     *)
(* which is orthogonal to the other edges.                                 *)
(*                                                                         *)
(* The machine is deterministic, but for the rounding errors: whenever a   *)
(* decision depends on numbers which rounding errors could turn, both      *)
(* outcomes are kept.  The operators below thus yield sets of states; mu   *)
(* is known to lie within [lo, hi].                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, F64

FNum(k, d) == FOf(k, d)
Half == FOf(1, 2)
AlphaC == FOf(1, 4)
BetaC == FOf(21, 10)
GammaC == Half
DeltaC == FOf(11, 10)
Eps12 == FDiv(FOf(1, 1000000), FOf(1000000, 1))
Eps9 == FOf(1, 1000000000)
Eps7 == FOf(1, 10000000)
Eps6 == FOf(1, 1000000)
Less(e) == FSub(F1, e)
More(e) == FAdd(F1, e)
Close(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)

RECURSIVE WorstTo(_, _)
WorstTo(c, k) == IF k = 0 THEN F0 ELSE FMax(WorstTo(c, k - 1), FNeg(c[k]))
Vertex(x, c, f) == [x |-> VNormalise(x), c |-> VNormalise(c), f |-> FNorm(f), cv |-> FNorm(WorstTo(c, Len(c)))]
Axis(n, k) == VForce([i \in 1 .. n |-> IF i = k THEN F1 ELSE F0])
-----------------------------------------------------------------------------
(* Geometry: what remains of v when its projections on the orthonormal     *)
(* vectors of Q are removed (twice, against rounding errors); orthonormal  *)
(* basis of the space of the first k vectors.                              *)
RECURSIVE OffTo(_, _, _)
OffTo(v, Q, k) == IF k = 0 THEN v ELSE OffTo(VForce(VAxpy(FNeg(VDot(v, Q[k])), Q[k], v)), Q, k - 1)
Off(v, Q) == IF Q = <<>> THEN v ELSE OffTo(OffTo(v, Q, Len(Q)), Q, Len(Q))
Unit(w, nw) == VForce([i \in DOMAIN w |-> FDiv(w[i], nw)])
RECURSIVE BasisTo(_, _)
BasisTo(vs, k) ==
  IF k = 0 THEN <<>>
  ELSE LET Q == BasisTo(vs, k - 1)
           w == Off(vs[k], Q)
           nw == VNorm2(w)
       IN IF FLe(nw, FMul(Eps9, VNorm2(vs[k]))) THEN Q ELSE Append(Q, Unit(w, nw))
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Shape(h) ==
  LET n == Len(h.oth)
      e == VForce([j \in 1 .. n |-> VForce(VSub(h.oth[j].x, h.pole.x))])
      r == VForce([j \in 1 .. n |-> LET o == Without(e, j) IN Off(e[j], BasisTo(o, Len(o)))])
  IN [e |-> e, r |-> r, sig |-> VForce([j \in 1 .. n |-> VNorm2(r[j])]), eta |-> VForce([j \in 1 .. n |-> VNorm2(e[j])])]
(* gradient of the linear function with given differences at the vertices *)
RECURSIVE GradTo(_, _, _)
GradTo(s, dv, k) == IF k = 0 THEN VZero(Len(s.e)) ELSE VForce(VAxpy(FDiv(FDiv(dv[k], s.sig[k]), s.sig[k]), s.r[k], GradTo(s, dv, k - 1)))
Grad(s, dv) == GradTo(s, dv, Len(s.e))
GradC(h, s, k) == Grad(s, [j \in DOMAIN h.oth |-> FSub(h.oth[j].c[k], h.pole.c[k])])
GradF(h, s) == Grad(s, [j \in DOMAIN h.oth |-> FSub(h.oth[j].f, h.pole.f)])
-----------------------------------------------------------------------------
(* The trust region step: minimize the greatest of b[k] - a[k].d (if it is *)
(* positive) over |d| <= rho, then g.d without increasing it.  The minima  *)
(* are among the points where some of the constraints are equally violated *)
(* and which go as far as possible within the ball along the projection of *)
(* one of their gradients (of -g in the second stage).                     *)
RECURSIVE Flat(_, _, _)
Flat(rows, k, n) ==
  IF k = 0 THEN [ok |-> TRUE, Q |-> <<>>, d |-> VZero(n)]
  ELSE LET p == Flat(rows, k - 1, n)
           u == rows[k][1]
           w == Off(u, p.Q)
           nw == VNorm2(w)
       IN IF ~p.ok \/ FLe(nw, FMul(Eps9, VNorm2(u))) THEN [p EXCEPT !.ok = FALSE]
          ELSE LET q == Unit(w, nw) IN
               [ok |-> TRUE, Q |-> Append(p.Q, q), d |-> VForce(VAxpy(FDiv(FSub(rows[k][2], VDot(u, p.d)), nw), q, p.d))]
Ends(rows, w, rho, n) ==
  LET p == Flat(rows, Len(rows), n)
      nd == VNorm2(p.d)
      v == Off(w, p.Q)
      nv == VNorm2(v)
  IN IF ~p.ok \/ ~FLe(nd, FMul(rho, More(Eps12))) THEN {}
     ELSE {p.d} \cup (IF FLe(nv, FMul(Eps9, VNorm2(w))) THEN {} ELSE {VForce(VAxpy(FDiv(FSqrt(FMax(F0, FMul(FSub(rho, nd), FAdd(rho, nd)))), nv), v, p.d))})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A i \in S : k <= i IN <<k>> \o SeqOf(S \ {k})
RECURSIVE ViolTo(_, _, _, _)
ViolTo(a, b, d, k) == IF k = 0 THEN F0 ELSE FMax(ViolTo(a, b, d, k - 1), FSub(b[k], VDot(a[k], d)))
Viol(a, b, d) == ViolTo(a, b, d, Len(b))
MinOf(S) == CHOOSE v \in S : \A w \in S : FLe(v, w)
RECURSIVE MaxNorm(_, _), MinNorm(_, _)
MaxNorm(a, k) == IF k = 0 THEN F0 ELSE FMax(MaxNorm(a, k - 1), VNorm2(a[k]))
MinNorm(a, k) == IF k = 1 THEN VNorm2(a[k]) ELSE FMin(MinNorm(a, k - 1), VNorm2(a[k]))
Step(h, s) ==
  LET n == Len(h.oth)
      m == Len(h.pole.c)
      a == VForce([k \in 1 .. m |-> GradC(h, s, k)])
      b == VForce([k \in 1 .. m |-> FNeg(h.pole.c[k])])
      g == GradF(h, s)
      mg == VForce(VNeg(g))
      first == UNION {LET q == SeqOf(S)
                          rows == VForce([i \in 1 .. Len(q) - 1 |-> <<VForce(VSub(a[q[i + 1]], a[q[1]])), FSub(b[q[i + 1]], b[q[1]])>>])
                      IN Ends(rows, a[q[1]], h.rho, n) : S \in {S \in SUBSET (1 .. m) : S # {} /\ Cardinality(S) <= n + 1}} \cup {VZero(n)}
      least == IF h.pole.cv = F0 THEN F0 ELSE MinOf({Viol(a, b, d) : d \in first})
      second == UNION {LET q == SeqOf(S)
                           rows == VForce([i \in 1 .. Len(q) |-> <<a[q[i]], FSub(b[q[i]], least)>>])
                       IN Ends(rows, mg, h.rho, n) : S \in {S \in SUBSET (1 .. m) : Cardinality(S) <= n}}
      sc == FAdd(VNormInf(b), FMul(h.rho, MaxNorm(a, m)))
      sf == FMul(h.rho, VNorm2(g))
      room == FAdd(least, FMul(Eps9, sc))
      fit == {d \in second \cup (IF h.pole.cv = F0 THEN {} ELSE first) : FLe(Viol(a, b, d), room)}
      sure == {d \in fit : FLe(Viol(a, b, d), FAdd(least, FMul(FMul(Eps12, FOf(1, 100)), sc)))}
      best == MinOf({VDot(g, d) : d \in fit})
      (* a violation known to e moves the end of the step by sqrt(e) *)
      blur == IF sc = F0 THEN F0 ELSE FSqrt(FMul(Eps12, FDiv(sc, FMax(FMul(h.rho, MinNorm(a, m)), FMul(Eps12, sc)))))
      most == FAdd(FMul(FAdd(Eps6, blur), sf), MinOf({VDot(g, d) : d \in sure}))
      mins == {d \in fit : FLe(VDot(g, d), most)}
  IN [a |-> a, b |-> b, g |-> g, sc |-> sc, sf |-> sf, least |-> least, best |-> best, most |-> most, mins |-> mins,
      short |-> \E d \in mins : FLe(VNorm2(d), FMul(FMul(Half, h.rho), More(Eps6)))]
-----------------------------------------------------------------------------
(* Merit: the range of the difference of the merits of two vertices, with  *)
(* the margin for rounding errors (none without the violations).           *)
MeritEnds(h, p, q) == {FAdd(FSub(p.f, q.f), FMul(mu, FSub(p.cv, q.cv))) : mu \in {h.lo, h.hi}}
Margin(h, p, q) == IF h.hi = F0 THEN F0 ELSE FMul(Eps12, FAdd(FMax(FAbs(p.f), FAbs(q.f)), FMul(h.hi, FMax(p.cv, q.cv))))
MayBeLess(h, p, q) == \E d \in MeritEnds(h, p, q) : IF h.hi = F0 THEN FLt(d, F0) ELSE FLe(d, Margin(h, p, q))
MayNotBeLess(h, p, q) == \E d \in MeritEnds(h, p, q) : FGe(d, FNeg(Margin(h, p, q)))
(* Without penalty, the first of the vertices with the least value, then   *)
(* the least violation, the pole being preferred.                          *)
Before(p, q) == FLt(p.f, q.f) \/ (FEq(p.f, q.f) /\ FLt(p.cv, q.cv))
Bests(h) ==
  LET V == [k \in 0 .. Len(h.oth) |-> IF k = 0 THEN h.pole ELSE h.oth[k]] IN
  IF h.hi = F0 THEN {CHOOSE k \in DOMAIN V : \A j \in DOMAIN V : ~Before(V[j], V[k]) /\ (j < k => Before(V[k], V[j]))}
  ELSE {k \in DOMAIN V : \A j \in DOMAIN V \ {k} : MayNotBeLess(h, V[j], V[k])}
Swap(h, k) == IF k = 0 THEN h ELSE [h EXCEPT !.pole = h.oth[k], !.oth[k] = h.pole]
-----------------------------------------------------------------------------
(* Reduction of the radius and of the penalty. *)
NextRho(rho, end) == LET r == FMul(Half, rho) IN IF FLe(r, FMul(FOf(3, 2), end)) THEN end ELSE r
RECURSIVE RangeTo(_, _)
RangeTo(v, k) == IF k = 1 THEN <<v[1], v[1]>> ELSE LET r == RangeTo(v, k - 1) IN <<FMin(r[1], v[k]), FMax(r[2], v[k])>>
Range(h, Val(_)) == LET n == Len(h.oth) IN RangeTo(VForce([k \in 1 .. n + 1 |-> IF k = n + 1 THEN Val(h.pole) ELSE Val(h.oth[k])]), n + 1)
Drops(h) == {FSub(FMax(r[2], F0), r[1]) : r \in {r \in {Range(h, LAMBDA p : p.c[k]) : k \in DOMAIN h.pole.c} : FLt(r[1], FMul(Half, r[2]))}}
NextMu(h, mu) ==
  LET S == Drops(h)
      rf == Range(h, LAMBDA p : p.f)
      den == MinOf(S)
      w == FSub(rf[2], rf[1])
  IN IF S = {} THEN F0 ELSE IF FLt(w, FMul(mu, den)) THEN FDiv(w, den) ELSE mu
Reduce(h) == [h EXCEPT !.rho = NextRho(@, h.end), !.lo = IF h.hi = F0 THEN F0 ELSE NextMu(h, h.lo), !.hi = IF h.hi = F0 THEN F0 ELSE NextMu(h, h.hi)]
-----------------------------------------------------------------------------
(* What the machine may want next.  When the simplex is flat as far as can *)
(* be told, it is lost: the numbers are rounding errors, nothing is known. *)
Big == FOf(1000000000, 1)
(* The penalties which may follow the prediction of a step: at least 3/2   *)
(* of the one for which the merit is not increased.                        *)
Penalties(h, t) ==
  LET gain == FSub(h.pole.cv, t.least)
      bar1 == FDiv(t.best, gain)
      bar2 == FDiv(t.most, gain)
      need1 == FMul(FOf(3, 2), bar1)
      need2 == FMul(FOf(3, 2), bar2)
  IN IF h.pole.cv = F0 \/ FLt(t.most, F0) THEN {<<h.lo, h.hi, FALSE>>}
     ELSE IF FLe(gain, FMul(Eps9, t.sc)) THEN {<<h.lo, h.hi, FALSE>>} \cup (IF t.sf = F0 \/ FGe(h.hi, Big) THEN {} ELSE {<<h.lo, FMul(Big, FAdd(h.hi, F1)), TRUE>>})
     ELSE (IF FLt(h.lo, FMul(need2, More(Eps6))) THEN {<<FMul(FMul(FOf(2, 1), FMax(F0, bar1)), Less(Eps6)), FMul(FMul(FOf(2, 1), bar2), More(Eps6)), TRUE>>} ELSE {})
          \cup (IF FGe(h.hi, FMul(need1, Less(Eps6))) THEN {<<h.lo, h.hi, FALSE>>} ELSE {})
(* Vertices which may be replaced to improve the geometry. *)
Poor(h, s) ==
  LET far == {j \in DOMAIN h.oth : FGt(s.eta[j], FMul(FMul(BetaC, h.rho), Less(Eps9)))}
      surely == {j \in far : FGt(s.eta[j], FMul(FMul(BetaC, h.rho), More(Eps9)))}
      farthest == {j \in far : \A i \in DOMAIN h.oth : FGe(s.eta[j], FMul(s.eta[i], Less(Eps9)))}
      flattest == {j \in DOMAIN h.oth : \A i \in DOMAIN h.oth : FLe(s.sig[j], FMul(s.sig[i], More(Eps9)))}
  IN farthest \cup (IF surely = {} THEN flattest ELSE {})
(* Side of the new vertex: the one of the least predicted merit. *)
Sides(h, s, j) ==
  LET d == VForce(VScale(FDiv(FMul(GammaC, h.rho), s.sig[j]), s.r[j]))
      m == Len(h.pole.c)
      up == WorstTo([k \in 1 .. m |-> FAdd(h.pole.c[k], VDot(GradC(h, s, k), d))], m)
      dn == WorstTo([k \in 1 .. m |-> FSub(h.pole.c[k], VDot(GradC(h, s, k), d))], m)
      df == VDot(GradF(h, s), d)
      sums == {FAdd(FAdd(df, df), FMul(mu, FSub(up, dn))) : mu \in {h.lo, h.hi}}
      tol == FMul(Eps7, FAdd(FMul(h.rho, VNorm2(GradF(h, s))), FMul(h.hi, FAdd(up, dn))))
  IN (IF \E v \in sums : FLe(v, tol) THEN {d} ELSE {}) \cup (IF \E v \in sums : FGe(v, FNeg(tol)) THEN {VForce(VNeg(d))} ELSE {})
Demand(kind, h, s, t, j, d) == [kind |-> kind, h |-> h, s |-> s, t |-> t, j |-> j, d |-> d]
(* (the penalty is raised at most once for a given pole: up is the set of  *)
(* the poles for which it has been) *)
RECURSIVE Iterate(_, _, _), After(_, _)
Iterate(h0, up, fuel) == IF fuel = 0 THEN {} ELSE UNION {
  LET h1 == Swap(h0, k)
      s == Shape(h1)
      poorly == \E j \in DOMAIN h1.oth : FLt(s.sig[j], FMul(FMul(AlphaC, h1.rho), More(Eps9))) \/ FGt(s.eta[j], FMul(FMul(BetaC, h1.rho), Less(Eps9)))
      well == \A j \in DOMAIN h1.oth : FGe(s.sig[j], FMul(FMul(AlphaC, h1.rho), Less(Eps9))) /\ FLe(s.eta[j], FMul(FMul(BetaC, h1.rho), More(Eps9)))
  IN IF \E j \in DOMAIN h1.oth : FLe(s.sig[j], FMul(Eps7, s.eta[j])) THEN {Demand("lost", h1, s, 0, 0, <<>>)}
     ELSE UNION {
       LET h == [h1 EXCEPT !.acc = acc] IN
       IF ~h.tried /\ ~acc THEN UNION {{Demand("geometry", h, s, 0, j, d) : d \in Sides(h, s, j)} : j \in Poor(h, s)}
       ELSE LET t == Step(h, s) IN
            (IF t.short THEN After([h EXCEPT !.tried = TRUE, !.full = 0], fuel - 1) ELSE {})
            \cup (IF \A d \in t.mins : FLt(VNorm2(d), FMul(FMul(Half, h.rho), Less(Eps6))) THEN {}
                  ELSE UNION {LET g == [h EXCEPT !.lo = p[1], !.hi = p[2]] IN
                    (IF p[3] /\ h.pole.x \notin up /\ \E j \in DOMAIN g.oth : MayBeLess(g, g.oth[j], g.pole) THEN Iterate(g, up \cup {h.pole.x}, fuel - 1) ELSE {})
                    \cup (IF ~p[3] \/ \A j \in DOMAIN g.oth : MayNotBeLess(g, g.oth[j], g.pole) THEN {Demand("step", g, s, t, 0, <<>>)} ELSE {})
                    : p \in Penalties(h, t)})
       : acc \in (IF poorly THEN {FALSE} ELSE {}) \cup (IF well THEN {TRUE} ELSE {})}
  : k \in Bests(h0)}
After(h, fuel) ==
  IF ~h.acc THEN Iterate([h EXCEPT !.tried = FALSE], {}, fuel)
  ELSE IF FGt(h.rho, h.end) THEN Iterate(Reduce(h), {}, fuel)
  ELSE {Demand("stop", h, 0, 0, 0, <<>>)}
Fuel == 100
Wants(h) == CASE h.next = "first" -> {Demand("first", h, 0, 0, 0, <<>>)}
              [] h.next = "axis" -> {Demand("axis", h, 0, 0, Len(h.oth) + 1, <<>>)}
              [] h.next = "lost" -> {Demand("lost", h, 0, 0, 0, <<>>)}
              [] h.next = "iterate" -> Iterate(h, {}, Fuel)
              [] OTHER -> After(h, Fuel)
-----------------------------------------------------------------------------
(* May the point x be the one wanted? *)
At(x, y, rho) == \A i \in DOMAIN x : Close(x[i], y[i], FAdd(FMul(Eps6, rho), FMul(Eps12, FAbs(y[i]))))
Asked(w, x) ==
  CASE w.kind = "first" -> VEq(x, w.h.start)
    [] w.kind = "axis" -> At(x, VForce(VAxpy(w.h.rho, Axis(Len(x), w.j), w.h.pole.x)), w.h.rho)
    [] w.kind = "geometry" -> At(x, VForce(VAdd(w.h.pole.x, w.d)), w.h.rho)
    [] w.kind = "step" ->
         LET d == VForce(VSub(x, w.h.pole.x)) IN
         /\ FLe(VNorm2(d), FMul(w.h.rho, More(Eps6)))
         /\ FGe(VNorm2(d), FMul(FMul(Half, w.h.rho), Less(Eps6)))
         /\ FLe(Viol(w.t.a, w.t.b, d), FAdd(w.t.least, FMul(Eps6, w.t.sc)))
         /\ FLe(VDot(w.t.g, d), w.t.most)
    [] OTHER -> w.kind = "lost"
(* The vertices which may be replaced by the end of a step. *)
Dropped(w, d, up) ==
  LET s == w.s
      N == DOMAIN w.h.oth
      r == VForce([j \in N |-> FDiv(FDiv(FAbs(VDot(s.r[j], d)), s.sig[j]), s.sig[j])])
      thr == IF up THEN F0 ELSE F1
      top == {j \in N : FGt(r[j], FMul(thr, Less(Eps7))) /\ \A i \in N : FGe(r[j], FMul(r[i], Less(Eps7)))}
      none == \A j \in N : FLe(r[j], FMul(thr, More(Eps7)))
      out == VForce([j \in N |-> IF up THEN VNorm2(VForce(VSub(d, s.e[j]))) ELSE s.eta[j]])
      Far(j, e) == FGt(out[j], FMul(FMul(DeltaC, w.h.rho), e))
      Flat2(j, e) == FGe(FMul(r[j], s.sig[j]), FMul(FMul(AlphaC, w.h.rho), e)) \/ FGe(r[j], e)
      may == {j \in N : Far(j, Less(Eps7)) /\ Flat2(j, Less(Eps7))}
      must == {j \in N : Far(j, More(Eps7)) /\ Flat2(j, More(Eps7))}
  IN {j \in may : \A i \in must : FGe(out[j], FMul(out[i], Less(Eps7)))}
     \cup (IF must = {} THEN top \cup (IF none THEN {0} ELSE {}) ELSE {})
(* The states which may follow the evaluation of the point wanted. *)
Learn(w, x, c, f) ==
  LET p == Vertex(x, c, f)
      h == w.h
  IN CASE w.kind = "first" -> {[h EXCEPT !.pole = p, !.next = "axis", !.last = p.x]}
       [] w.kind = "axis" ->
            LET better == ~FLe(h.pole.f, p.f)
                g == [h EXCEPT !.oth = Append(@, IF better THEN h.pole ELSE p), !.pole = IF better THEN p ELSE @, !.last = p.x]
            IN {[g EXCEPT !.next = IF Len(g.oth) < Len(x) THEN "axis" ELSE "iterate", !.tried = TRUE]}
       [] w.kind = "geometry" -> {[h EXCEPT !.oth[w.j] = p, !.tried = TRUE, !.next = "iterate", !.last = p.x]}
       [] w.kind = "step" ->
            LET d == VForce(VSub(p.x, h.pole.x))
                len == VNorm2(d)
                flat == h.hi = F0 /\ FEq(p.f, h.pole.f)
                rec == FSub(h.pole.cv, Viol(w.t.a, w.t.b, d))
                lin == VDot(w.t.g, d)
                won == IF flat THEN {FSub(h.pole.cv, p.cv)} ELSE MeritEnds(h, h.pole, p)
                hoped == IF flat THEN {rec} ELSE {FSub(FMul(mu, rec), lin) : mu \in {h.lo, h.hi}}
                tol == Margin(h, h.pole, p)
                big == FMul(Eps6, FAdd(w.t.sf, FMul(h.hi, w.t.sc)))
                UP == (IF \E v \in won : FGt(v, FNeg(tol)) /\ (tol # F0 \/ FGt(v, F0)) THEN {TRUE} ELSE {}) \cup (IF \E v \in won : FLe(v, tol) THEN {FALSE} ELSE {})
                GOOD == (IF \E v \in won, y \in hoped : FGe(v, FSub(FMul(FOf(1, 10), y), big)) THEN {TRUE} ELSE {})
                        \cup (IF \E v \in won, y \in hoped : FLt(v, FAdd(FMul(FOf(1, 10), y), big)) THEN {FALSE} ELSE {})
            IN {[h EXCEPT !.oth = IF j = 0 THEN @ ELSE [@ EXCEPT ![j] = p], !.tried = TRUE, !.last = p.x, !.full = full,
                          !.next = IF j # 0 /\ up /\ good THEN "iterate" ELSE "after"]
                : full \in (IF FGe(len, FMul(h.rho, Less(Eps6))) THEN {1} ELSE {0}) , <<up, good, j>> \in UNION {{<<u, gd, k>> : gd \in GOOD, k \in Dropped(w, d, u)} : u \in UP}}
       [] w.kind = "lost" -> {[h EXCEPT !.next = "lost", !.oth = <<>>, !.pole = p]}
       [] OTHER -> {}
Start(n, m, rho, end, x) ==
  [oth |-> <<>>, pole |-> [x |-> <<>>, c |-> <<>>, f |-> F0, cv |-> F0], start |-> VNormalise(x), rho |-> FNorm(rho), end |-> FNorm(end),
   lo |-> F0, hi |-> F0, tried |-> FALSE, acc |-> FALSE, full |-> 0, last |-> <<>>, next |-> "first"]
(* The point returned on success: the last trial if it was a full step.    *)
Answer(h) == IF h.full = 1 THEN h.last ELSE h.pole.x
=============================================================================
