------------------------------- MODULE Newuoa -------------------------------
(***************************************************************************)
(* Powell's NEWUOA (newuoa.c): npt points interpolate the objective by a   *)
(* quadratic model.  The first model is the interpolant whose second       *)
(* derivatives have the least Frobenius norm; then, when a point is        *)
(* replaced, the model is changed so that it interpolates the new value,   *)
(* the change of the second derivatives having the least Frobenius norm.   *)
(* After the initial design, an evaluation is made at                      *)
(*   - a trust step: the model is reduced within delta of the best point   *)
(*     by truncated conjugate gradients, then by moves along the boundary, *)
(*   - a model step: the point which is the farthest from the best one, if *)
(*     it is at more than 2 delta, is replaced by a point at dstep of the  *)
(*     best one where its Lagrange function is large (or, when this would  *)
(*     damage the interpolation, the denominator of the updating formula), *)
(*   - the last trust step, if it was too short to be tried before.        *)
(* The geometry is described by the positions of the points only: the      *)
(* Lagrange functions and the terms of the updating formula are found from *)
(* the inverse of the matrix of the interpolation conditions.              *)
(*                                                                         *)
(* The machine is deterministic but for the rounding errors: whenever a    *)
(* decision depends on numbers which rounding errors could turn, both      *)
(* outcomes are kept.  The operators below thus yield sets of states.      *)
(***************************************************************************)
EXTENDS Quadratic
-----------------------------------------------------------------------------
(* Search along a circle: values v[1..50] at the angles 2*pi*(k-1)/50; the *)
(* best of them (largest score) is refined by a parabola.                  *)
Turn == FDiv(FMul(Two, FNorm("0x1.921fb54442d18p+1")), FOf(50, 1))
Wave == VForce([k \in 1 .. 50 |-> <<FCos(FMul(Turn, FOf(k - 1, 1))), FSin(FMul(Turn, FOf(k - 1, 1)))>>])
Refine(v, Score(_)) ==
  LET sc == VForce([k \in 1 .. 50 |-> Score(v[k])])
      b == CHOOSE k \in 1 .. 50 : \A j \in 1 .. 50 : FGe(sc[k], sc[j]) /\ (j < k => FGt(sc[k], sc[j]))
      l == FSub(v[IF b = 1 THEN 50 ELSE b - 1], v[b])
      r == FSub(v[IF b = 50 THEN 1 ELSE b + 1], v[b])
  IN FMul(Turn, FAdd(FOf(b - 1, 1), IF FEq(l, r) THEN F0 ELSE FDiv(FSub(l, r), FMul(Two, FAdd(l, r)))))
-----------------------------------------------------------------------------
(* The trust step: reduces the quadratic q within delta.                   *)
Small == FOf(1, 10000)
Percent == FOf(1, 100)
RECURSIVE Around(_, _, _, _, _, _, _)
Around(q, delta, step, hs, gg0, qred, it) ==
  LET gr == Add(q.g, hs)
      gg == VDot(gr, gr)
      sgk == VDot(step, gr)
      dsq == Sq(delta)
  IN IF FLe(gg, FMul(Small, gg0)) \/ FLe(FDiv(sgk, FSqrt(FMul(gg, dsq))), FOf(-99, 100)) THEN step
     ELSE LET t == FSqrt(FSub(FMul(dsq, gg), Sq(sgk)))
              d == Lin(FDiv(dsq, t), gr, FNeg(FDiv(sgk, t)), step)
              hd == Prod(q.H, d)
              sg == VDot(step, q.g)
              dg == VDot(d, q.g)
              cf == FMul(Half, FSub(VDot(step, hs), VDot(d, hd)))
              dhs == VDot(hd, step)
              Val(c, s) == FAdd(FMul(FAdd(sg, FMul(cf, c)), c), FMul(FAdd(dg, FMul(dhs, c)), s))
              a == Refine(VForce([k \in 1 .. 50 |-> Val(Wave[k][1], Wave[k][2])]), LAMBDA v : FNeg(v))
              red == FSub(FAdd(sg, cf), Val(FCos(a), FSin(a)))
              st == Lin(FCos(a), step, FSin(a), d)
              all == FAdd(qred, red)
          IN IF it + 1 < Len(step) /\ FGt(FDiv(red, all), Percent) THEN Around(q, delta, st, Prod(q.H, st), gg0, all, it + 1) ELSE st
RECURSIVE Conjugate(_, _, _, _, _, _, _, _)
Conjugate(q, delta, step, d, gg, qred, crv, it) ==
  LET gg0 == VDot(q.g, q.g)
      ds == VDot(d, step)
      ss == VDot(step, step)
      dd == VDot(d, d)
      t == FSub(Sq(delta), ss)
      far == FDiv(t, FAdd(ds, FSqrt(FAdd(Sq(ds), FMul(dd, t)))))
      dhd == VDot(d, Prod(q.H, d))
      bent == FGt(dhd, F0)
      c == IF ~bent THEN crv ELSE IF it = 1 THEN FDiv(dhd, dd) ELSE FMin(crv, FDiv(dhd, dd))
      a == IF bent THEN FMin(far, FDiv(gg, dhd)) ELSE far
      gain == FMul(a, FSub(gg, Mul3(Half, a, dhd)))
      red == FAdd(qred, gain)
      st == VForce(VAxpy(a, d, step))
      hs == Prod(q.H, st)
      gr == Add(q.g, hs)
      ng == VDot(gr, gr)
      nd == VForce(VAxpy(FDiv(ng, gg), d, VForce(VNeg(gr))))
  IN IF ~FLt(a, far) THEN [d |-> Around(q, delta, st, hs, gg0, red, it), crv |-> F0]
     ELSE IF it >= Len(d) \/ FLe(gain, FMul(Percent, red)) \/ FLe(ng, FMul(Small, gg0)) \/ FLe(VDot(nd, st), F0) THEN [d |-> st, crv |-> c]
     ELSE IF FLt(VDot(st, st), Sq(delta)) THEN Conjugate(q, delta, st, nd, ng, red, c, it + 1)
     ELSE [d |-> Around(q, delta, st, hs, gg0, red, it), crv |-> F0]
Trust(q, delta) ==
  LET n == Len(q.g)
      gg == VDot(q.g, q.g)
  IN IF gg = F0 THEN [d |-> VZero(n), crv |-> F0]
     ELSE Conjugate(q, delta, VZero(n), VForce(VNeg(q.g)), gg, F0, F0, 1)
-----------------------------------------------------------------------------
(* The model step: makes the modulus of the quadratic q (a Lagrange        *)
(* function, null at the best point) large at r of this point, beginning   *)
(* with the direction e.                                                   *)
RECURSIVE Swing(_, _, _, _, _)
Swing(q, d, gd, s0, it) ==
  LET dd == VDot(d, d)
      sp == VDot(d, s0)
      ss == VDot(s0, s0)
      t == FSub(FMul(dd, ss), Sq(sp))
      den == FSqrt(t)
      s == Lin(FDiv(dd, den), s0, FNeg(FDiv(sp, den)), d)
      w == Prod(q.H, s)
      c1 == FMul(Half, VDot(s, w))
      c2 == VDot(d, q.g)
      c3 == VDot(s, q.g)
      c4 == FSub(FMul(Half, VDot(d, gd)), c1)
      c5 == VDot(s, gd)
      Val(c, v) == FAdd(c1, FAdd(FMul(FAdd(c2, FMul(c4, c)), c), FMul(FAdd(c3, FMul(c5, c)), v)))
      a == Refine(VForce([k \in 1 .. 50 |-> Val(Wave[k][1], Wave[k][2])]), FAbs)
      nd == Lin(FCos(a), d, FSin(a), s)
      ngd == Lin(FCos(a), gd, FSin(a), w)
  IN IF FLe(t, Mul3(FOf(1, 100000000), dd, ss)) THEN d
     ELSE IF it >= Len(d) \/ FLe(FAbs(Val(FCos(a), FSin(a))), FMul(FOf(11, 10), FAbs(Val(F1, F0)))) THEN nd
     ELSE Swing(q, nd, ngd, Add(q.g, ngd), it + 1)
Spread(q, e, r) ==
  LET dd == VDot(e, e)
      gg == VDot(q.g, q.g)
      sp == VDot(e, q.g)
      he == Prod(q.H, e)
      dhd == VDot(e, he)
      k == FMul(IF FLt(FMul(sp, dhd), F0) THEN FOf(-1, 1) ELSE F1, FDiv(r, FSqrt(dd)))
      tau == FMul(k, FAdd(FAbs(sp), Mul3(Half, k, FAbs(dhd))))
      both == FGt(Sq(sp), Mul3(FOf(99, 100), dd, gg)) \/ FLt(FMul(gg, Sq(r)), FMul(Percent, Sq(tau)))
      gd == Times(k, he)
  IN Swing(q, Times(k, e), gd, IF both THEN Add(q.g, gd) ELSE q.g, 1)
-----------------------------------------------------------------------------
(* The initial design: the best of the first points tells on which side    *)
(* the last ones are.                                                      *)
InitStep(h, k) ==
  LET n == h.n
      t == (k - n - 2) \div n
      j0 == k - 1 - t * n - n
      i0 == j0 + t
      i == IF i0 > n THEN j0 ELSE i0
      j == IF i0 > n THEN i0 - n ELSE j0
      Side(a) == IF FLt(h.f[a + n + 1], h.f[a + 1]) THEN FNeg(h.rho) ELSE h.rho
  IN IF k = 1 THEN VZero(n)
     ELSE IF k <= n + 1 THEN Axis(n, k - 1, h.rho)
     ELSE IF k <= 2 * n + 1 THEN Axis(n, k - n - 1, FNeg(h.rho))
     ELSE Add(Axis(n, i, Side(i)), Axis(n, j, Side(j)))
(* the base of the model moves to the best point when the steps are short *)
Based(h, dsq) == IF FLe(dsq, FMul(FOf(1, 1000), VDot(Sub(Best(h), h.base), Sub(Best(h), h.base)))) THEN [h EXCEPT !.base = Best(h)] ELSE h
Far(h) ==
  LET r == VForce([j \in 1 .. h.m |-> VNorm2(Sub(h.x[j], Best(h)))])
      lim == FMul(Two, h.delta)
      may == {j \in 1 .. h.m : FGt(r[j], FMul(lim, Less(Eps9)))}
      top == {j \in may : \A i \in 1 .. h.m : FGe(r[j], FMul(r[i], Less(Eps9)))}
  IN {<<j, FMax(FMin(FMul(Tenth, r[j]), FMul(Half, h.delta)), h.rho)>> : j \in top}
     \cup (IF \A j \in 1 .. h.m : FLe(r[j], FMul(lim, More(Eps9))) THEN {<<0, F0>>} ELSE {})
RECURSIVE AtTrust(_, _), AtFar(_, _, _, _), AtEnd(_, _, _, _)
AtTrust(h, fuel) == IF fuel = 0 THEN {} ELSE
  LET t == Trust(h.q, h.delta)
      len == VNorm2(t.d)
      dn == FMin(len, h.delta)
  IN IF Vague(h, h.q.g) THEN {Demand("lost", h, 0, <<>>)} ELSE
     UNION {IF ~short THEN {Demand("trust", Based(h, Sq(len)), 0, t.d)}
     ELSE UNION {LET g == [h EXCEPT !.delta = dl, !.up = FALSE, !.dn = dn]
                     big == FMax(FMax(h.da, h.db), h.dc)
                     bend == FMul(Mul3(t.crv, FOf(1, 8), h.rho), h.rho)
                 IN UNION {IF h.nf <= h.nfsav + 2 \/ still THEN AtFar(g, TRUE, t.d, fuel - 1) ELSE AtEnd(g, TRUE, t.d, fuel - 1)
                           : still \in Tests(bend, big, FMul(Eps4, big))}
                 : dl \in Snap(FMul(Tenth, h.delta), h.rho)}
     : short \in Tests(dn, FMul(Half, h.rho), FMul(Eps6, h.rho))}
AtFar(h, neg, d, fuel) == UNION {
  IF c[1] > 0 THEN {Demand("model", Based(h, Sq(c[2])), c[1], <<c[2]>>)}
  ELSE IF h.up \/ FGt(FMax(h.delta, h.dn), h.rho) THEN AtTrust(h, fuel - 1)
  ELSE AtEnd(h, neg, d, fuel - 1) : c \in Far(h)}
AtEnd(h, neg, d, fuel) ==
  IF FGt(h.rho, h.end) THEN UNION {AtTrust([h EXCEPT !.rho = r, !.delta = FMax(FMul(Half, h.rho), r), !.up = TRUE, !.nfsav = h.nf], fuel - 1) : r \in NextRho(h.rho, h.end)}
  ELSE IF neg THEN {Demand("last", h, 0, d)} ELSE {Demand("stop", h, 0, <<>>)}
Fuel == 60
Wants(h) == CASE h.next = "init" -> {Demand("init", h, 0, InitStep(h, Len(h.x) + 1))}
              [] h.next = "trust" -> AtTrust(h, Fuel)
              [] h.next = "far" -> AtFar(h, FALSE, <<>>, Fuel)
              [] h.next = "lost" -> {Demand("lost", h, 0, <<>>)}
              [] OTHER -> {Demand(h.next, h, 0, <<>>)}
-----------------------------------------------------------------------------
(* May x be the point wanted? *)
Asked(w, x) ==
  CASE w.kind = "init" -> At(x, Add(w.h.base, w.d), w.h.rho)
    [] w.kind = "trust" ->
         LET d == Sub(x, Best(w.h))
             want == Change(w.h.q, w.d)
         IN /\ FLe(VNorm2(d), FMul(w.h.delta, More(Eps6)))
            /\ FGe(VNorm2(d), FMul(FMul(Half, w.h.rho), Less(Eps6)))
            /\ FLe(Change(w.h.q, d), FMul(want, Less(Eps4)))
    [] w.kind = "last" ->
         LET d == Sub(x, Best(w.h))
         IN \/ At(x, Add(Best(w.h), w.d), w.h.rho)
            \/ /\ FLe(VNorm2(d), FMul(FMul(Half, w.h.rho), More(Eps6)))
               /\ FLt(Change(w.h.q, w.d), F0)
               /\ FLe(Change(w.h.q, d), FMul(Change(w.h.q, w.d), Less(Eps4)))
    [] w.kind = "model" ->
         LET d == Sub(x, Best(w.h))
             r == w.d[1]
             geo == Geo(w.h.x, Best(w.h), r)
             q == LagQuad(geo, w.k)
             e == Spread(q, Sub(w.h.x[w.k], Best(w.h)), r)
             tau == Change(q, e)
             ab == FMul(Alpha(geo, w.k), Beta(geo, e))
             ratio == FAbs(FAdd(F1, FDiv(ab, Sq(tau))))
             edge == FOf(8, 10)
         IN IF Flat(geo) THEN FALSE ELSE
            /\ Close(VNorm2(d), r, FMul(Eps6, r))
            /\ \/ FGt(ratio, FMul(edge, Less(Eps4))) /\ FGe(FAbs(Change(q, d)), FMul(FAbs(tau), Less(FOf(1, 1000))))
               \/ FLe(ratio, FMul(edge, More(Eps4))) /\ FGe(FAbs(FAdd(FMul(Alpha(geo, w.k), Beta(geo, d)), Sq(Change(q, d)))), FMul(FAbs(FAdd(ab, Sq(tau))), Less(FOf(1, 1000))))
    [] OTHER -> w.kind = "lost"
-----------------------------------------------------------------------------
(* The point which is dropped after a trust step by d (0 if none is): the  *)
(* denominator of the updating formula is to be large, and the point far   *)
(* from the best one.                                                      *)
Dropped(h, geo, d, f) ==
  LET lag == Lags(geo, d)
      beta == Beta(geo, d)
      r2 == Sq(FMax(FMul(Tenth, h.delta), h.rho))
      won == FLt(f, h.f[h.k])
      best == IF won THEN Add(Best(h), d) ELSE Best(h)
      fac == VForce([k \in 1 .. h.m |-> LET e == Sub(h.x[k], best) IN LET v == FMax(F1, FDiv(VDot(e, e), r2)) IN Mul3(v, v, v)])
      top == VForce([k \in 1 .. h.m |-> FMul(fac[k], FAbs(FAdd(FMul(beta, Alpha(geo, k)), Sq(lag[k]))))])
      tol == VForce([k \in 1 .. h.m |-> Mul3(Eps6, fac[k], FAdd(FAbs(FMul(beta, Alpha(geo, k))), Sq(lag[k])))])
      C == {k \in 1 .. h.m : won \/ k # h.k}
      thr == IF won THEN F0 ELSE F1
  IN {k \in C : FGe(FAdd(top[k], tol[k]), thr) /\ \A j \in C : FGe(FAdd(top[k], tol[k]), FSub(top[j], tol[j]))}
     \cup (IF \A k \in C : FLe(FSub(top[k], tol[k]), thr) THEN {0} ELSE {})
(* gradients at the base of the model and of the least Frobenius           *)
(* interpolant: after three useless steps with a gradient at least ten     *)
(* times too large, the interpolant becomes the model                      *)
Reviewed(h, ratio) ==
  LET geo == Geo(h.x, Best(h), h.delta)
      p == Interpolant(geo, VForce([j \in 1 .. h.m |-> FSub(h.f[j], h.f[h.k])]))
      e == Sub(h.base, Best(h))
      gq == LET g == Moved(h.q, e).g IN VDot(g, g)
      gi == LET g == Moved(p, e).g IN VDot(g, g)
      lim == FMul(FOf(100, 1), gi)
  IN UNION {IF useful THEN {[h EXCEPT !.itest = 0]}
            ELSE {IF good THEN [h EXCEPT !.itest = 0]
                  ELSE IF h.itest + 1 >= 3 THEN [h EXCEPT !.itest = 0, !.q = p]
                  ELSE [h EXCEPT !.itest = @ + 1] : good \in Tests(gq, lim, FAdd(FMul(Eps4, FAdd(gq, lim)), Eps12))}
     : useful \in Tests(Percent, FAbs(ratio), Eps6)}
Delta(h, ratio, dn, tol) == UNION {Snap(dl, h.rho) : dl \in
  UNION {IF low THEN {FMul(Half, dn)}
         ELSE {IF mid THEN FMax(FMul(Half, h.delta), dn) ELSE FMax(FMul(Half, h.delta), FMul(Two, dn)) : mid \in Tests(ratio, FOf(7, 10), tol)}
         : low \in Tests(ratio, Tenth, tol)}}
(* The states which may follow the evaluation of the point wanted. *)
Learn(w, x0, f0) ==
  LET x == VNormalise(x0)
      f == FNorm(f0)
      h == [w.h EXCEPT !.nf = @ + 1]
      d == Sub(x, Best(h))
      gain == Change(h.q, d)
      diff == FSub(FSub(f, h.f[h.k]), gain)
      len == VNorm2(d)
      noted == [h EXCEPT !.dc = h.db, !.db = h.da, !.da = FAbs(diff)]
  IN CASE w.kind = "init" ->
            LET g == [h EXCEPT !.x = Append(@, x), !.f = Append(@, f)]
                k == First(g.f)
                geo == Geo(g.x, g.x[k], h.rho)
            IN IF Len(g.x) < h.m THEN {g}
               ELSE {[g EXCEPT !.k = k, !.q = Interpolant(geo, VForce([j \in 1 .. h.m |-> FSub(g.f[j], g.f[k])])), !.nfsav = h.nf, !.next = "trust"]}
       [] w.kind = "trust" ->
            IF FGe(gain, F0) THEN {[h EXCEPT !.next = "failed"]} ELSE
            LET dn == FMin(len, h.delta)
                ratio == FDiv(FSub(f, h.f[h.k]), gain)
                tol == FAdd(Eps6, FDiv(FMul(Eps12, FAdd(FAbs(f), FAbs(h.f[h.k]))), FAbs(gain)))
                geo == Geo(h.x, Best(h), h.delta)
                SAVE == IF FLe(h.delta, h.rho) THEN {FALSE} ELSE {~b : b \in Tests(dn, h.rho, FMul(Eps9, h.rho))}
                good == Tests(Tenth, ratio, tol) (* f <= fopt + gain/10 *)
            IN IF Flat(geo) THEN {[h EXCEPT !.next = "lost"]} ELSE
               UNION {UNION {
                 LET g == [noted EXCEPT !.delta = dl, !.dn = dn, !.nfsav = IF save THEN h.nf ELSE @, !.up = up] IN
                 UNION {IF k = 0 THEN {[g EXCEPT !.next = IF FLt(f, h.f[h.k]) THEN "lost" ELSE "far"]}
                        ELSE {[r EXCEPT !.next = IF @ = "lost" THEN @ ELSE IF b THEN "trust" ELSE "far"]
                              : b \in good, r \in LET r0 == Replaced(g, k, x, f, diff) IN IF r0.next # "lost" /\ dl = h.rho THEN Reviewed(r0, ratio) ELSE {r0}}
                        : k \in Dropped(g, geo, d, f)}
                 : dl \in Delta(h, ratio, dn, tol)} : save \in SAVE, up \in {FGt(ratio, F0)}}
       [] w.kind = "model" ->
            LET r == Replaced(noted, w.k, x, f, diff) IN {[r EXCEPT !.nfsav = IF FGt(h.dn, h.rho) THEN h.nf ELSE @, !.next = IF @ = "lost" THEN @ ELSE "trust"]}
       [] w.kind = "last" -> {[h EXCEPT !.next = "stop", !.x = Append(@, x), !.f = Append(@, f)]}
       [] w.kind = "lost" -> {[h EXCEPT !.next = "lost"]}
       [] OTHER -> {}
Start(n, m, rho, end, x) ==
  [n |-> n, m |-> m, x |-> <<>>, f |-> <<>>, k |-> 1, base |-> VNormalise(x), q |-> [g |-> <<>>, H |-> <<>>], rho |-> FNorm(rho), end |-> FNorm(end), delta |-> FNorm(rho),
   da |-> F0, db |-> F0, dc |-> F0, dn |-> F0, up |-> FALSE, itest |-> 0, nf |-> 0, nfsav |-> 0, next |-> "init"]
=============================================================================
