------------------------------- MODULE Bobyqa -------------------------------
(***************************************************************************)
(* Powell's BOBYQA (bobyqa.c): as NEWUOA (Newuoa.tla), a quadratic model   *)
(* interpolates the objective at npt points and changes as little as       *)
(* possible when a point is replaced, but no point leaves the bounds       *)
(* [lo, hi].  After the initial design, an evaluation is made at           *)
(*   - a trust step: the model is reduced within delta of the best point   *)
(*     and the bounds by truncated conjugate gradients, restarted when a   *)
(*     bound is met, then by moves along the boundary,                     *)
(*   - an alternative step: the point which is the farthest from the best  *)
(*     one, if it is too far, is replaced by a point of a line through the *)
(*     best one and another, or by the end of a constrained Cauchy step,   *)
(*     where the denominator of the updating formula is large,             *)
(*   - the last trust step, if it was too short to be tried before.        *)
(* The calls of RESCUE, which only rounding errors may cause, are not      *)
(* described.                                                              *)
(***************************************************************************)
EXTENDS Quadratic

Small == FOf(1, 10000)
Percent == FOf(1, 100)
Ten == FOf(10, 1)
Pow4(a) == Sq(Sq(a))
Clamp(v, lo, hi) == FMin(FMax(v, lo), hi)
Tiny(a, b) == FMul(FMul(Eps12, FOf(1, 100)), FMax(FAbs(a), FAbs(b)))
OnLow(h, i, v) == Close(v, h.lo[i], Tiny(v, h.lo[i]))
OnHigh(h, i, v) == Close(v, h.hi[i], Tiny(v, h.hi[i]))
-----------------------------------------------------------------------------
(* The trust step.  In p: the model q at the best point, the moves allowed *)
(* between lo and hi.  fx tells which variables are fixed (-1: at the      *)
(* lower bound, 1: at the upper one).                                      *)
Free(v, fx) == VForce([i \in DOMAIN v |-> IF fx[i] = 0 THEN v[i] ELSE F0])
Fixed(fx) == Cardinality({i \in DOMAIN fx : fx[i] # 0})
TrustEnd(p, d, fx, crv) ==
  LET v == VForce([i \in DOMAIN d |-> IF fx[i] < 0 THEN p.lo[i] ELSE IF fx[i] > 0 THEN p.hi[i] ELSE Clamp(d[i], p.lo[i], p.hi[i])])
  IN {[d |-> v, crv |-> crv, g |-> Add(p.q.g, Prod(p.q.H, d))]}
(* value of the reduction after the angle of half-tangent t *)
Gain(t, c) ==
  LET sn == FDiv(FAdd(t, t), FAdd(F1, Sq(t)))
      v == FAdd(c.shs, FMul(t, FSub(FSub(FMul(t, c.dhd), c.dhs), c.dhs)))
  IN FMul(sn, FSub(FSub(FMul(t, c.dg), c.sg), Mul3(Half, sn, v)))
RECURSIVE Turning(_, _, _, _), TurnOn(_, _, _, _), TurnTo(_, _, _, _, _, _, _)
Turning(p, d, fx, qred) == IF Fixed(fx) >= Len(d) - 1 THEN TrustEnd(p, d, fx, F0) ELSE TurnOn(p, d, fx, qred)
TurnOn(p, d, fx, qred) ==
  LET n == Len(d)
      g == Free(Add(p.q.g, Prod(p.q.H, d)), fx)
      dr == Free(d, fx)
      dd == VDot(dr, dr)
      dg == VDot(dr, g)
      gg == VDot(g, g)
      t2 == FSub(FMul(gg, dd), Sq(dg))
      t == FSqrt(t2)
      s == Lin(FDiv(dg, t), dr, FNeg(FDiv(dd, t)), g)
      F == {i \in 1 .. n : fx[i] = 0}
      low(i) == FSub(d[i], p.lo[i])
      high(i) == FSub(p.hi[i], d[i])
      hit == {i \in F : FLe(low(i), Tiny(d[i], F0)) \/ FLe(high(i), Tiny(d[i], F0))}
      ssq(i) == FAdd(Sq(dr[i]), Sq(s[i]))
      (* half-tangents at which the bounds are met: a bound which is only    *)
      (* touched may be met or not                                           *)
      a1(i) == FSub(ssq(i), Sq(p.lo[i]))
      a2(i) == FSub(ssq(i), Sq(p.hi[i]))
      b1(i) == FSub(FSqrt(FMax(F0, a1(i))), s[i])
      b2(i) == FAdd(FSqrt(FMax(F0, a2(i))), s[i])
      lims(eps) == {<<FDiv(low(i), b1(i)), i, -1>> : i \in {i \in F : IF FGt(a1(i), FMul(eps, ssq(i))) THEN FGt(b1(i), low(i)) ELSE FALSE}}
                 \cup {<<FDiv(high(i), b2(i)), i, 1>> : i \in {i \in F : IF FGt(a2(i), FMul(eps, ssq(i))) THEN FGt(b2(i), high(i)) ELSE FALSE}}
      hs == Prod(p.q.H, s)
      c == [shs |-> VDot(s, hs), dhs |-> VDot(dr, hs), dhd |-> VDot(dr, Prod(p.q.H, dr)), dg |-> dg, sg |-> FNeg(t)]
  IN IF FLe(t2, Mul3(Small, qred, qred)) THEN TrustEnd(p, d, fx, F0)
     ELSE IF hit # {} THEN LET i == CHOOSE i \in hit : \A j \in hit : i <= j IN
            Turning(p, d, [fx EXCEPT ![i] = IF FLe(low(i), Tiny(d[i], F0)) THEN -1 ELSE 1], qred)
     ELSE UNION {TurnTo(p, d, s, fx, c, qred, lim) : lim \in {lims(Eps9), lims(FNeg(Eps9))}}
TurnTo(p, d, s, fx, c, qred, lim) ==
  LET n == Len(d)
      first == CHOOSE c1 \in lim : \A e \in lim : FLe(c1[1], e[1])
      ang == IF lim = {} THEN F1 ELSE first[1]
      m == CHOOSE k \in 3 .. 20 : LET v == FAdd(FMul(ang, FOf(17, 1)), FOf(31, 10)) IN FLe(FOf(k, 1), v) /\ FLt(v, FOf(k + 1, 1))
      r == VForce([k \in 1 .. m + 1 |-> IF k = 1 THEN F0 ELSE Gain(FDiv(FMul(ang, FOf(k - 1, 1)), FOf(m, 1)), c)])
      b == (CHOOSE k \in 1 .. m + 1 : \A j \in 1 .. m + 1 : FGe(r[k], r[j]) /\ (j < k => FGt(r[k], r[j]))) - 1
      adj == FDiv(FSub(r[b + 2], r[b]), FSub(FSub(FAdd(r[b + 1], r[b + 1]), r[b]), r[b + 2]))
      a == IF b = m THEN ang ELSE FDiv(FMul(ang, FAdd(FOf(b, 1), FMul(Half, adj))), FOf(m, 1))
      dec == Gain(a, c)
      cs == FDiv(FSub(F1, Sq(a)), FAdd(F1, Sq(a)))
      sn == FDiv(FAdd(a, a), FAdd(F1, Sq(a)))
      nd == VForce([i \in 1 .. n |-> IF fx[i] = 0 THEN FAdd(FMul(cs, d[i]), FMul(sn, s[i])) ELSE d[i]])
      all == FAdd(qred, dec)
  IN IF b = 0 THEN TrustEnd(p, d, fx, F0)
     ELSE IF FLe(dec, F0) THEN TrustEnd(p, d, fx, F0)
     ELSE IF lim # {} /\ b = m THEN Turning(p, nd, [fx EXCEPT ![first[2]] = first[3]], all)
     ELSE IF FGt(dec, FMul(Percent, all)) THEN TurnOn(p, nd, fx, all) ELSE TrustEnd(p, nd, fx, F0)
RECURSIVE Conjugate(_, _, _, _, _, _, _, _, _, _, _)
Conjugate(p, d, fx, dsq, qred, crv, it, itmax, s0, beta, gg0) ==
  LET n == Len(d)
      g == Add(p.q.g, Prod(p.q.H, d))
      new == beta = F0
      s == VForce([i \in 1 .. n |-> IF fx[i] # 0 THEN F0 ELSE IF new THEN FNeg(g[i]) ELSE FSub(FMul(beta, s0[i]), g[i])])
      ss == VDot(s, s)
      gg == IF new THEN ss ELSE gg0
      top == IF new THEN it + n - Fixed(fx) ELSE itmax
      hs == Prod(p.q.H, s)
      dr == Free(d, fx)
      rest == FSub(dsq, VDot(dr, dr))
      ds == VDot(s, dr)
      shs == VDot(s, hs)
      root == FSqrt(FAdd(FMul(ss, rest), Sq(ds)))
      far == IF FLt(ds, F0) THEN FDiv(FSub(root, ds), ss) ELSE FDiv(rest, FAdd(root, ds))
      want == IF FGt(shs, F0) THEN FMin(far, FDiv(gg, shs)) ELSE far
      room(i) == IF FGt(s[i], F0) THEN FDiv(FSub(p.hi[i], d[i]), s[i]) ELSE FDiv(FSub(p.lo[i], d[i]), s[i])
      S == {i \in 1 .. n : s[i] # F0}
      near == {i \in S : FLt(room(i), want)}
      hit == IF near = {} THEN 0 ELSE CHOOSE i \in near : \A j \in near : FLe(room(i), room(j))
      len == IF hit = 0 THEN want ELSE room(hit)
      go == FGt(len, F0)
      c == FDiv(shs, ss)
      nc == IF go /\ hit = 0 /\ FGt(c, F0) THEN (IF FLt(crv, F0) THEN c ELSE FMin(crv, c)) ELSE crv
      nd == IF go THEN VForce(VAxpy(len, s, d)) ELSE d
      ng == Free(Add(p.q.g, Prod(p.q.H, nd)), fx)
      ngg == IF go THEN VDot(ng, ng) ELSE gg
      dec == IF go THEN FMax(F0, FMul(len, FSub(gg, Mul3(Half, len, shs)))) ELSE F0
      all == FAdd(qred, dec)
      nit == IF go THEN it + 1 ELSE it
      ndsq == FSub(dsq, Sq(nd[hit]))
      nfx == [fx EXCEPT ![hit] = IF FLt(s[hit], F0) THEN -1 ELSE 1]
  IN IF ss = F0 THEN TrustEnd(p, d, fx, crv)
     ELSE IF FLe(FMul(gg, dsq), Mul3(Small, qred, qred)) THEN TrustEnd(p, d, fx, crv)
     ELSE IF FLe(rest, F0) THEN Turning(p, d, fx, qred)
     ELSE IF hit > 0 THEN (IF FLe(ndsq, F0) THEN Turning(p, nd, nfx, all) ELSE Conjugate(p, nd, nfx, ndsq, all, nc, nit, top, s, F0, ngg))
     ELSE IF FLt(len, far) THEN (IF nit = top \/ FLe(dec, FMul(Percent, all)) THEN TrustEnd(p, nd, fx, nc) ELSE Conjugate(p, nd, fx, dsq, all, nc, nit, top, s, FDiv(ngg, gg), ngg))
     ELSE Turning(p, nd, fx, all)
(* moves allowed from the best point *)
Moves(h) == [q |-> h.q,
             lo |-> VForce([i \in 1 .. h.n |-> IF OnLow(h, i, Best(h)[i]) THEN F0 ELSE FSub(h.lo[i], Best(h)[i])]),
             hi |-> VForce([i \in 1 .. h.n |-> IF OnHigh(h, i, Best(h)[i]) THEN F0 ELSE FSub(h.hi[i], Best(h)[i])])]
Blocked(p, g) == [i \in DOMAIN g |-> IF p.lo[i] = F0 /\ FGe(g[i], F0) THEN -1 ELSE IF p.lo[i] # F0 /\ p.hi[i] = F0 /\ FLe(g[i], F0) THEN 1 ELSE 0]
Trust(h) ==
  LET p == Moves(h)
      z == VZero(h.n)
  IN Conjugate(p, z, Blocked(p, p.q.g), Sq(h.delta), F0, FOf(-1, 1), 0, 0, z, F0, F0)
-----------------------------------------------------------------------------
(* The alternative step, for the Lagrange function q of the k-th point     *)
(* (null at the best point), within r.  Along each line through the best   *)
(* point and another one: the step for which the Lagrange function is the  *)
(* largest, and the prediction of the square of the denominator there.     *)
(* Both points may be on a bound: rounding errors then decide whether the  *)
(* line leaves the box at once, on one side (m).                           *)
Sides(h, p, j) == IF j # h.k /\ \E i \in 1 .. h.n : FEq(h.x[j][i], Best(h)[i]) /\ (p.lo[i] = F0 \/ p.hi[i] = F0) THEN {"free", "back", "fore", "both"} ELSE {"free"}
Line(h, p, geo, q, k, j, r, m) ==
  LET e == Sub(h.x[j], Best(h))
      dis == VDot(e, e)
      dd == VDot(q.g, e)
      top == FDiv(r, FSqrt(dis))
      least == FMin(F1, top)
      Low(i) == IF FGt(e[i], F0) THEN FDiv(p.lo[i], e[i]) ELSE FDiv(p.hi[i], e[i])
      High(i) == IF FGt(e[i], F0) THEN FDiv(p.hi[i], e[i]) ELSE FDiv(p.lo[i], e[i])
      I == {i \in DOMAIN e : e[i] # F0}
      lo == IF m \in {"back", "both"} THEN F0 ELSE CHOOSE v \in {FNeg(top)} \cup {Low(i) : i \in I} : \A i \in I : FGe(v, Low(i)) /\ FGe(v, FNeg(top))
      hi == IF m \in {"fore", "both"} THEN least ELSE FMax(least, CHOOSE v \in {top} \cup {High(i) : i \in I} : \A i \in I : FLe(v, High(i)) /\ FLe(v, top))
      df == FSub(dd, F1)
      Val(t) == IF j = k THEN FMul(t, FSub(dd, FMul(t, df))) ELSE Mul3(t, FSub(F1, t), dd)
      mid == IF j = k THEN (IF FLt(FMul(FSub(FMul(Half, dd), FMul(df, lo)), FSub(FMul(Half, dd), FMul(df, hi))), F0) THEN {FDiv(FMul(Half, dd), df)} ELSE {})
             ELSE IF FGt(hi, Half) THEN {Half} ELSE {}
      C == {lo, hi} \cup mid
      t == CHOOSE t \in C : \A u \in C : FGe(FAbs(Val(t)), FAbs(Val(u)))
      v2 == Sq(Val(t))
      w == Mul3(t, FSub(F1, t), dis)
  IN [v2 |-> v2, pred |-> FMul(v2, FAdd(v2, Mul3(FMul(Half, Alpha(geo, k)), FDiv(w, Sq(geo.s)), FDiv(w, Sq(geo.s))))), d |-> Times(t, e)]
(* The Cauchy step: along -g within r, the variables which meet their      *)
(* bounds stay there and the others go farther.                            *)
RECURSIVE Stretch(_, _, _, _)
Stretch(p, g, r, w) == (* w[i]: the move of a fixed variable, or "free" *)
  LET I == DOMAIN g
      F == {i \in I : w[i] = "free"}
      wf == VForce([i \in I |-> IF i \in F THEN F0 ELSE w[i]])
      rest == FSub(Sq(r), VDot(wf, wf))
      gf == VForce([i \in I |-> IF i \in F THEN g[i] ELSE F0])
      t == FSqrt(FDiv(rest, VDot(gf, gf)))
      to(i) == FNeg(FMul(t, g[i]))
      out == {i \in F : FLe(to(i), p.lo[i]) \/ FGe(to(i), p.hi[i])}
  IN IF VDot(gf, gf) = F0 \/ FLe(rest, F0) THEN wf
     ELSE IF out = {} THEN VForce([i \in I |-> IF i \in F THEN to(i) ELSE w[i]])
     ELSE Stretch(p, g, r, [i \in I |-> IF i \notin out THEN w[i] ELSE IF FLe(to(i), p.lo[i]) THEN p.lo[i] ELSE p.hi[i]])
Cauchy(p, q, g, sgn, r) ==
  LET I == DOMAIN g
      w == Stretch(p, g, r, [i \in I |-> IF FGt(FMin(FNeg(p.lo[i]), g[i]), F0) \/ FLt(FMax(FNeg(p.hi[i]), g[i]), F0) THEN "free" ELSE F0])
      gw == VDot(g, w)
      c == FMul(sgn, VDot(w, Prod(q.H, w)))
      cut == FGt(c, FNeg(gw)) /\ FLt(c, FMul(FNeg(FAdd(F1, FSqrt(Two))), gw))
      k == FDiv(FNeg(gw), c)
  IN IF cut THEN [d |-> Times(k, w), sq |-> Sq(Mul3(Half, gw, k))] ELSE [d |-> w, sq |-> Sq(FAdd(gw, FMul(Half, c)))]
Denom(geo, k, d) == FAdd(Sq(Lags(geo, d)[k]), FMul(Alpha(geo, k), Beta(geo, d)))
Alternative(h, k, r) ==
  LET p == Moves(h)
      geo == Geo(h.x, Best(h), r)
      q == LagQuad(geo, k)
      L == VForce([j \in 1 .. h.m |-> IF j = h.k THEN [v2 |-> F0, pred |-> FOf(-1, 1), d |-> VZero(h.n)] ELSE Line(h, p, geo, q, k, j, r, "free")])
      b == CHOOSE j \in 1 .. h.m : \A i \in 1 .. h.m : FGe(L[j].pred, L[i].pred)
      c1 == Cauchy(p, q, q.g, F1, r)
      c2 == Cauchy(p, q, VForce(VNeg(q.g)), FOf(-1, 1), r)
      c == IF FGt(c1.sq, c2.sq) THEN c1 ELSE c2
      den == Denom(geo, k, L[b].d)
      S == [j \in 1 .. h.m |-> Sides(h, p, j)]
      V == VForce([j \in 1 .. h.m |-> IF Cardinality(S[j]) = 1 THEN {L[j]} ELSE {Line(h, p, geo, q, k, j, r, m) : m \in S[j]}])
      dens == IF \A j \in 1 .. h.m : Cardinality(S[j]) = 1 THEN {den}
              ELSE {Denom(geo, k, e.d) : e \in {e \in UNION {V[j] : j \in 1 .. h.m} : \A j \in 1 .. h.m : \E y \in V[j] : FGe(e.pred, y.pred)}}
      (* neither is taken if one of them cannot move (a gradient of rounding *)
      (* errors may move or not) *)
      wide == VNormInf(VForce([j \in 1 .. h.m |-> VNorm2(geo.u[j])]))
      size == FAdd(FMul(FOf(1, 10000000), FAdd(VNorm2(q.g), FMul(r, VNormInf(VForce([i \in 1 .. h.n |-> VNormInf(q.H[i])]))))),
                   FMul(FMul(FOf(1, 1000000000), FOf(1, 10)), FDiv(FMul(VNormInf(VForce([j \in 1 .. h.m |-> geo.h[k][j]])), Sq(wide)), geo.s)))
      Goes(g) == IF \E i \in DOMAIN g : FGt(FAbs(g[i]), size) /\ (IF FGt(g[i], F0) THEN FLt(p.lo[i], F0) ELSE FGt(p.hi[i], F0)) THEN {TRUE}
                 ELSE IF \E i \in DOMAIN g : FLe(FAbs(g[i]), size) THEN BOOLEAN ELSE {FALSE}
      goes == {a /\ z : a \in Goes(q.g), z \in Goes(VForce(VNeg(q.g)))}
  IN [geo |-> geo, vague |-> FLe(VNorm2(q.g), FMul(Ten, size)) \/ FLe(L[b].v2, Sq(Mul3(Ten, size, r))), line |-> L[b].d, cauchy |-> c.d, first |-> FGe(den, c.sq) \/ TRUE \notin goes,
      den |-> {IF goed /\ FLt(z, v) THEN Denom(geo, k, c.d) ELSE z : goed \in goes, v \in {FMul(c.sq, Less(Eps6)), FMul(c.sq, More(Eps6))}, z \in dens}]
Chosen(h, k, r) == LET a == Alternative(h, k, r) IN IF a.first THEN a.line ELSE a.cauchy
-----------------------------------------------------------------------------
(* The initial design.  The pairs of axes use the better sides, when they  *)
(* are opposite.                                                           *)
SideA(h, i) == IF h.base[i] = h.hi[i] THEN FNeg(h.rho) ELSE h.rho
SideB(h, i) == IF h.base[i] = h.lo[i] THEN FMin(FMul(Two, h.rho), FSub(h.hi[i], h.base[i]))
               ELSE IF h.base[i] = h.hi[i] THEN FMax(FMul(FOf(-2, 1), h.rho), FSub(h.lo[i], h.base[i])) ELSE FNeg(h.rho)
InitStep(h, k) ==
  LET n == h.n
      t == (k - n - 2) \div n
      j0 == k - 1 - t * n - n
      i0 == j0 + t
      i == IF i0 > n THEN j0 ELSE i0
      j == IF i0 > n THEN i0 - n ELSE j0
      Side(a) == IF FLt(FMul(SideA(h, a), SideB(h, a)), F0) /\ FLt(h.f[a + n + 1], h.f[a + 1]) THEN SideB(h, a) ELSE SideA(h, a)
  IN IF k = 1 THEN VZero(n)
     ELSE IF k <= n + 1 THEN Axis(n, k - 1, SideA(h, k - 1))
     ELSE IF k <= 2 * n + 1 THEN Axis(n, k - n - 1, SideB(h, k - n - 1))
     ELSE Add(Axis(n, i, Side(i)), Axis(n, j, Side(j)))
(* points farther than sqrt(lim) *)
Far(h, lim) ==
  LET r == VForce([j \in 1 .. h.m |-> LET e == Sub(h.x[j], Best(h)) IN VDot(e, e)])
      may == {j \in 1 .. h.m : FGt(r[j], FMul(lim, Less(Eps9)))}
      top == {j \in may : \A i \in 1 .. h.m : FGe(r[j], FMul(r[i], Less(Eps9)))}
  IN {<<j, FSqrt(r[j])>> : j \in top} \cup (IF \A j \in 1 .. h.m : FLe(r[j], FMul(lim, More(Eps9))) THEN {<<0, F0>>} ELSE {})
Alter(h, c) == Demand("alternative", h, c[1], <<FMax(h.rho, FMin(FMul(Tenth, c[2]), h.delta))>>)
(* is the model good enough near a point where its gradient is g ? *)
Settled(h, t, big) ==
  LET p == Moves(h)
      tol == FDiv(big, h.rho)
      edge == {i \in 1 .. h.n : t.d[i] = p.hi[i] \/ t.d[i] = p.lo[i]}
      slope(i) == IF t.d[i] = p.hi[i] THEN FNeg(t.g[i]) ELSE t.g[i]
      up(i) == FAdd(slope(i), Mul3(Half, h.q.H[i][i], h.rho))
      sz == FMul(Eps6, FAdd(tol, VNorm2(t.g)))
      curved == IF FGt(t.crv, F0) THEN {~b : b \in Tests(FMul(Mul3(h.rho, FOf(1, 8), h.rho), t.crv), big, FMul(Eps4, big))} ELSE {TRUE}
      poor == {i \in edge : FLt(slope(i), FAdd(tol, sz)) /\ FLt(up(i), FAdd(tol, FAdd(sz, FMul(Eps6, FAbs(up(i))))))}
      sure == {i \in edge : FLt(slope(i), FSub(tol, sz)) /\ FLt(up(i), FSub(tol, FAdd(sz, FMul(Eps6, FAbs(up(i))))))}
  IN (IF FALSE \in curved \/ poor # {} THEN {FALSE} ELSE {}) \cup (IF TRUE \in curved /\ sure = {} THEN {TRUE} ELSE {})
(* no direction which is not of rounding errors *)
Unsure(h, p) == LET fx == Blocked(p, p.q.g) IN IF \A i \in 1 .. h.n : fx[i] # 0 /\ FGt(FAbs(h.q.g[i]), Noise(h)) THEN FALSE ELSE Vague(h, Free(h.q.g, fx))
RECURSIVE AtTrust(_, _), AtFar(_, _), AtEnd(_, _, _, _)
AtTrust(h, fuel) == IF fuel = 0 THEN {} ELSE
  LET p == Moves(h) IN
  IF Unsure(h, p) THEN {Demand("lost", h, 0, <<>>)} ELSE
  UNION {LET len == VNorm2(t.d)
             dn == FMin(len, h.delta)
         IN UNION {IF ~short THEN {Demand("trust", h, 0, t.d)}
           ELSE LET big == FMax(FMax(h.da, h.db), h.dc)
                    g == [h EXCEPT !.dn = dn]
                    far == UNION {IF c[1] = 0 THEN AtEnd(g, TRUE, t.d, fuel - 1)
                                  ELSE {Alter([g EXCEPT !.delta = dl], c) : dl \in Snap(FMin(FMul(Tenth, h.delta), FMul(Half, c[2])), h.rho)}
                                  : c \in Far(g, FMul(FOf(100, 1), Sq(h.rho)))}
                IN UNION {IF h.nf > h.nfsav + 2 /\ done THEN AtEnd(g, TRUE, t.d, fuel - 1) ELSE far : done \in Settled(h, t, big)}
           : short \in Tests(dn, FMul(Half, h.rho), FMul(Eps6, h.rho))}
  : t \in Trust(h)}
AtFar(h, fuel) == UNION {
  IF c[1] > 0 THEN {Alter(h, c)}
  ELSE IF h.up \/ FGt(FMax(h.delta, h.dn), h.rho) THEN AtTrust(h, fuel - 1)
  ELSE AtEnd(h, FALSE, <<>>, fuel - 1) : c \in Far(h, Sq(FMax(FMul(Two, h.delta), FMul(Ten, h.rho))))}
AtEnd(h, neg, d, fuel) ==
  IF FGt(h.rho, h.end) THEN UNION {AtTrust([h EXCEPT !.rho = r, !.delta = FMax(FMul(Half, h.rho), r), !.nfsav = h.nf], fuel - 1) : r \in NextRho(h.rho, h.end)}
  ELSE IF neg THEN {Demand("last", h, 0, d)} ELSE {Demand("stop", h, 0, <<>>)}
Fuel == 60
Wants(h) == CASE h.next = "init" -> {Demand("init", h, 0, InitStep(h, Len(h.x) + 1))}
              [] h.next = "trust" -> AtTrust(h, Fuel)
              [] h.next = "far" -> AtFar(h, Fuel)
              [] h.next = "lost" -> {Demand("lost", h, 0, <<>>)}
              [] OTHER -> {Demand(h.next, h, 0, <<>>)}
-----------------------------------------------------------------------------
(* May x be the point wanted? *)
Within(h, x) == \A i \in DOMAIN x : FLe(h.lo[i], x[i]) /\ FLe(x[i], h.hi[i])
Asked(w, x) ==
  IF ~Within(w.h, x) THEN w.kind = "lost" ELSE
  CASE w.kind = "init" -> At(x, Add(w.h.base, w.d), w.h.rho)
    [] w.kind = "trust" ->
         LET d == Sub(x, Best(w.h))
             want == Change(w.h.q, w.d)
         IN /\ FLe(VNorm2(d), FMul(w.h.delta, More(Eps6)))
            /\ FGe(VNorm2(d), FMul(FMul(Half, w.h.rho), Less(Eps6)))
            /\ FLe(Change(w.h.q, d), FMul(want, Less(Eps4)))
    [] w.kind = "last" ->
         LET d == Sub(x, Best(w.h))
         IN \/ At(x, Add(Best(w.h), w.d), w.h.rho)
            \/ /\ FLe(VNorm2(d), FMul(FMul(Half, w.h.rho), More(Eps6)))
               /\ FLt(Change(w.h.q, w.d), F0)
               /\ FLe(Change(w.h.q, d), FMul(Change(w.h.q, w.d), Less(Eps4)))
    [] w.kind = "alternative" ->
         LET d == Sub(x, Best(w.h))
             r == w.d[1]
             a == Alternative(w.h, w.k, r)
             den == Denom(a.geo, w.k, d)
             rough == FAbs(FMul(Alpha(a.geo, w.k), FAdd(Rough(a.geo, d), Rough(a.geo, a.line))))
             Good(v) == FGe(FAdd(den, rough), FMul(v, Less(FOf(1, 50))))
         IN IF Flat(a.geo) THEN FALSE ELSE
            /\ FLe(VNorm2(d), FMul(r, More(Eps6)))
            /\ a.vague \/ \E v \in a.den : Good(v)
    [] OTHER -> w.kind = "lost"
-----------------------------------------------------------------------------
(* The points which may be dropped, the distances being from o: the        *)
(* denominator is to be large, and the point far.                          *)
Worst(h, geo, d, o, C) ==
  LET lag == Lags(geo, d)
      beta == Beta(geo, d)
      rough == Rough(geo, d)
      fac == VForce([k \in 1 .. h.m |-> LET e == Sub(h.x[k], o) IN FMax(F1, Sq(FDiv(VDot(e, e), Sq(h.delta))))])
      top == VForce([k \in 1 .. h.m |-> FMul(fac[k], FAdd(FMul(beta, Alpha(geo, k)), Sq(lag[k])))])
      tol == VForce([k \in 1 .. h.m |-> FMul(fac[k], FAdd(FMul(Eps6, FAdd(FAbs(FMul(beta, Alpha(geo, k))), Sq(lag[k]))), FAbs(FMul(rough, Alpha(geo, k)))))])
  IN {k \in C : \A j \in C : FGe(FAdd(top[k], tol[k]), FSub(top[j], tol[j]))}
(* gradients of the model and of the least Frobenius interpolant, but for  *)
(* what the bounds forbid: after three times a gradient too large by more  *)
(* than sqrt(10), the interpolant becomes the model                        *)
Reviewed(h) ==
  LET geo == Geo(h.x, Best(h), h.delta)
      p == Interpolant(geo, VForce([j \in 1 .. h.m |-> FSub(h.f[j], h.f[h.k])]))
      Part(g) == LET v == VForce([i \in 1 .. h.n |-> IF OnLow(h, i, Best(h)[i]) THEN FMin(F0, g[i]) ELSE IF OnHigh(h, i, Best(h)[i]) THEN FMax(F0, g[i]) ELSE g[i]]) IN VDot(v, v)
      gq == Part(h.q.g)
      lim == FMul(Ten, Part(p.g))
  IN {IF good THEN [h EXCEPT !.itest = 0]
      ELSE IF h.itest + 1 >= 3 THEN [h EXCEPT !.itest = 0, !.q = p]
      ELSE [h EXCEPT !.itest = @ + 1] : good \in Tests(gq, lim, FAdd(FMul(Eps4, FAdd(gq, lim)), Sq(FMul(FOf(1000, 1), Noise(h)))))}
Delta(h, ratio, dn, tol) == UNION {Snap(dl, h.rho) : dl \in
  UNION {IF low THEN {FMin(FMul(Half, h.delta), dn)}
         ELSE {IF mid THEN FMax(FMul(Half, h.delta), dn) ELSE FMax(FMul(Half, h.delta), FMul(Two, dn)) : mid \in Tests(ratio, FOf(7, 10), tol)}
         : low \in Tests(ratio, Tenth, tol)}}
(* The states which may follow the evaluation of the point wanted. *)
Learn(w, x0, f0) ==
  LET x == VNormalise(x0)
      f == FNorm(f0)
      h == [w.h EXCEPT !.nf = @ + 1]
      d == Sub(x, Best(h))
      gain == Change(h.q, d)
      diff == FSub(FSub(f, h.f[h.k]), gain)
      len == VNorm2(d)
      won == FLt(f, h.f[h.k])
      noted == [h EXCEPT !.dc = h.db, !.db = h.da, !.da = FAbs(diff)]
  IN CASE w.kind = "init" ->
            LET g == [h EXCEPT !.x = Append(@, x), !.f = Append(@, f)]
                k == First(g.f)
                geo == Geo(g.x, g.x[k], h.rho)
            IN IF Len(g.x) < h.m THEN {g}
               ELSE {[g EXCEPT !.k = k, !.q = Interpolant(geo, VForce([j \in 1 .. h.m |-> FSub(g.f[j], g.f[k])])), !.nfsav = h.nf, !.next = "trust"]}
       [] w.kind = "trust" ->
            IF FGe(gain, F0) THEN {[h EXCEPT !.next = "failed"]} ELSE
            LET dn == FMin(len, h.delta)
                ratio == FDiv(FSub(f, h.f[h.k]), gain)
                tol == FAdd(Eps6, FDiv(FMul(Eps12, FAdd(FAbs(f), FAbs(h.f[h.k]))), FAbs(gain)))
                geo == Geo(h.x, Best(h), h.delta)
                SAVE == IF FLe(h.delta, h.rho) THEN {FALSE} ELSE {~b : b \in Tests(dn, h.rho, FMul(Eps9, h.rho))}
                good == Tests(Tenth, ratio, tol)
            IN IF Flat(geo) THEN {[h EXCEPT !.next = "lost"]} ELSE
               UNION {UNION {
                 LET g == [noted EXCEPT !.delta = dl, !.dn = dn, !.nfsav = IF save THEN h.nf ELSE @, !.up = FGt(ratio, F0)]
                     K == IF won THEN Worst(g, geo, d, x, 1 .. h.m) ELSE Worst(h, geo, d, Best(h), (1 .. h.m) \ {h.k})
                 IN UNION {LET r0 == Replaced(g, k, x, f, diff) IN IF r0.next = "lost" THEN {r0}
                           ELSE {[r EXCEPT !.next = IF b THEN "trust" ELSE "far"] : b \in good, r \in Reviewed(r0)} : k \in K}
                 : dl \in Delta(h, ratio, dn, tol)} : save \in SAVE}
       [] w.kind = "alternative" ->
            LET r == Replaced(noted, w.k, x, f, diff) IN {[r EXCEPT !.nfsav = IF FGt(h.dn, h.rho) THEN h.nf ELSE @, !.next = IF @ = "lost" THEN @ ELSE "trust"]}
       [] w.kind = "last" -> {[h EXCEPT !.next = "stop", !.x = Append(@, x), !.f = Append(@, f)]}
       [] w.kind = "lost" -> {[h EXCEPT !.next = "lost"]}
       [] OTHER -> {}
(* The starting point is moved to its bounds, or to rhobeg from them. *)
Begin(x, lo, hi, rho) ==
  IF FGe(FSub(lo, x), FNeg(rho)) THEN (IF FGe(lo, x) THEN lo ELSE FAdd(lo, rho))
  ELSE IF FLe(FSub(hi, x), rho) THEN (IF FLe(hi, x) THEN hi ELSE FSub(hi, rho)) ELSE x
Start(n, m, rho, end, x, lo, hi) ==
  [n |-> n, m |-> m, x |-> <<>>, f |-> <<>>, k |-> 1, base |-> VForce([i \in 1 .. n |-> Begin(FNorm(x[i]), FNorm(lo[i]), FNorm(hi[i]), FNorm(rho))]),
   lo |-> VNormalise(lo), hi |-> VNormalise(hi), q |-> [g |-> <<>>, H |-> <<>>], rho |-> FNorm(rho), end |-> FNorm(end), delta |-> FNorm(rho),
   da |-> F0, db |-> F0, dc |-> F0, dn |-> F0, up |-> FALSE, itest |-> 0, nf |-> 0, nfsav |-> 0, next |-> "init"]
=============================================================================
