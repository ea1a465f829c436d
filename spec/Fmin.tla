-------------------------------- MODULE Fmin --------------------------------
(***************************************************************************)
(* Minimization of a function of one variable (fmin.c).                    *)
(*                                                                         *)
(* The state is a bracket (u,v,w), v being in between, with the values of  *)
(* the function there.  The values at the ends of the initial interval are *)
(* asked first, unless they are bounds which the search must not reach,    *)
(* where the value is taken to be infinite.  Then a point in between; then *)
(* points farther and farther beyond the end with the least value, as long *)
(* as the point in between is not better; then points inside the bracket,  *)
(* which shrinks around the best point.                                    *)
(*                                                                         *)
(* Numbers are abstract; which points are tried is left to the actions'    *)
(* parameter x (a golden section chooses one of them, see TraceFmin).      *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Lt(_, _), Inf

Le(p, q) == ~Lt(q, p)
Lower(p, q) == IF Lt(q, p) THEN q ELSE p
Upper(p, q) == IF Lt(p, q) THEN q ELSE p
(* strictly between p and q, whatever their order *)
Between(x, p, q) == Lt(Lower(p, q), x) /\ Lt(x, Upper(p, q))
(* beyond q when coming from p *)
Beyond(x, p, q) == IF Lt(p, q) THEN Lt(q, x) ELSE Lt(x, q)

(* Before the point in between: u is the end with the largest value. *)
Enter(s) == [s EXCEPT !.ph = "in",
             !.u = IF Lt(s.fu, s.fw) THEN s.w ELSE s.u, !.fu = IF Lt(s.fu, s.fw) THEN s.fw ELSE s.fu,
             !.w = IF Lt(s.fu, s.fw) THEN s.u ELSE s.w, !.fw = IF Lt(s.fu, s.fw) THEN s.fu ELSE s.fw]
Begin(a, b, ba, bb) ==
  LET s == [ph |-> "a", a |-> a, b |-> b, ba |-> ba, bb |-> bb, u |-> a, v |-> a, w |-> b, fu |-> Inf, fv |-> Inf, fw |-> Inf, n |-> 0]
  IN IF ~ba THEN s ELSE IF ~bb THEN [s EXCEPT !.ph = "b"] ELSE Enter(s)
(* Which points can be asked. *)
CanAsk(s, x) == CASE s.ph = "a" -> x = s.a
                  [] s.ph = "b" -> x = s.b
                  [] s.ph = "in" -> Between(x, s.u, s.w)
                  [] s.ph = "out" -> Beyond(x, s.v, s.w)
                  [] s.ph = "go" -> Between(x, s.u, s.w) /\ x # s.v
                  [] OTHER -> FALSE
Test(s) == [s EXCEPT !.ph = IF Lt(s.fw, s.fv) THEN "out" ELSE "go"]
(* The states after the value fx is known at x (two when the choice of the *)
(* part of the bracket to keep is arbitrary).                              *)
Shrink(s, x, fx) ==
  LET far == IF Between(x, s.v, s.w) THEN "w" ELSE "u"     \* x is between v and this end
      e == IF far = "w" THEN s.w ELSE s.u  fe == IF far = "w" THEN s.fw ELSE s.fu
      o == IF far = "w" THEN s.u ELSE s.w  fo == IF far = "w" THEN s.fu ELSE s.fw
      keep == [s EXCEPT !.u = x, !.fu = fx, !.w = o, !.fw = fo]                               \* (x, v, o)
      move == [s EXCEPT !.u = s.v, !.fu = s.fv, !.v = x, !.fv = fx, !.w = e, !.fw = fe]       \* (v, x, e)
  IN (IF Le(s.fv, fx) THEN {keep} ELSE {}) \cup (IF Le(fx, s.fv) THEN {move} ELSE {})
After(s, x, fx) ==
  LET t == [s EXCEPT !.n = s.n + 1] IN
  CASE s.ph = "a" -> {IF s.bb THEN Enter([t EXCEPT !.fu = fx]) ELSE [t EXCEPT !.fu = fx, !.ph = "b"]}
    [] s.ph = "b" -> {Enter([t EXCEPT !.fw = fx])}
    [] s.ph = "in" -> {Test([t EXCEPT !.v = x, !.fv = fx])}
    [] s.ph = "out" -> {Test([t EXCEPT !.u = s.v, !.fu = s.fv, !.v = s.w, !.fv = s.fw, !.w = x, !.fw = fx])}
    [] s.ph = "go" -> Shrink(t, x, fx)
(* When the search may stop for having made too many evaluations. *)
Exhausted(s, max) == s.ph \in {"out", "go"} /\ max >= 0 /\ s.n >= max
-----------------------------------------------------------------------------
(* What holds at any time. *)
Bracketed(s) == s.ph = "go"
Sound(s) ==
  /\ s.ph \in {"out", "go"} => Lt(Lower(s.u, s.w), s.v) /\ Lt(s.v, Upper(s.u, s.w))
  /\ s.ph = "go" => Le(s.fv, s.fu) /\ Le(s.fv, s.fw)
  /\ s.ph = "out" => Lt(s.fw, s.fv) /\ Le(s.fw, s.fu)
(* bounds are not passed *)
Inside(s, x) == /\ s.ba => (IF Lt(s.a, s.b) THEN Lt(s.a, x) ELSE Lt(x, s.a))
                /\ s.bb => (IF Lt(s.a, s.b) THEN Lt(x, s.b) ELSE Lt(s.b, x))
=============================================================================
