------------------------------- MODULE DynSys -------------------------------
(***************************************************************************)
(* Dynamical systems: their equations, closed-form solutions, settings and *)
(* integration.  (dmpbbo/dynamicalsystems, src/dynamicalsystems)           *)
(*                                                                         *)
(* A system s is a record.  All have kind, tau and xinit (the initial      *)
(* state; for spring-damper systems positions followed by velocities z).   *)
(* The further fields, with one number per dimension, are                  *)
(*   exponential  attr, alpha                                              *)
(*   sigmoid      rmax, infl                                               *)
(*   time         down (BOOLEAN)                                           *)
(*   spring       attr, d, k, m                                            *)
(*   richards     attr, alpha, v, infl, left (<< >>: from the others)      *)
(***************************************************************************)
EXTENDS Lin

N(s) == IF s.kind = "spring" THEN Len(s.xinit) \div 2 ELSE Len(s.xinit)
Low(x) == SubSeq(x, 1, Len(x) \div 2)
High(x) == SubSeq(x, Len(x) \div 2 + 1, Len(x))

\* Carrying capacity of a sigmoid system.
Capacity(s) == Now([i \in 1..N(s) |->
   RMul(s.xinit[i], RAdd(1, RExp(RMul(RMul(s.rmax[i], s.tau), s.infl[i]))))])

\* Left asymptote of a Richards system.
RichV(s) == Now([i \in 1..N(s) |-> RMax(s.v[i], Half)])
LeftAsymp(s) ==
  IF s.left # << >> THEN s.left
  ELSE LET v == RichV(s)
       IN Now([i \in 1..N(s) |->
            LET z == RPowR(RAdd(RMul(v[i], RExp(RMul(RMul(s.alpha[i], v[i]), RMax(s.infl[i], Zero)))), 1), RDiv(1, v[i]))
            IN RSub(s.xinit[i], RDiv(RSub(s.attr[i], s.xinit[i]), RSub(z, 1)))])

----------------------------------------------------------------------------
(* The differential equations: rates of change of state x.                 *)

TimeRate(s, x) == IF s.down THEN (IF RLt(0, x) THEN RDiv(-1, s.tau) ELSE Zero)
                  ELSE (IF RLt(x, 1) THEN RDiv(1, s.tau) ELSE Zero)
Rate(s, x) ==
  CASE s.kind = "exponential" ->
         Now([i \in 1..Len(x) |-> RDiv(RMul(s.alpha[i], RSub(s.attr[i], x[i])), s.tau)])
    [] s.kind = "sigmoid" ->
         LET c == Capacity(s)
         IN Now([i \in 1..Len(x) |-> RMul(RMul(s.rmax[i], x[i]), RSub(1, RDiv(x[i], c[i])))])
    [] s.kind = "time" -> << TimeRate(s, x[1]) >>
    [] s.kind = "spring" ->
         LET y == Low(x)
             z == High(x)
         IN VScale(RDiv(1, s.tau), z)
            \o Now([i \in 1..Len(y) |->
                 RDiv(RSub(RMul(s.k[i], RSub(s.attr[i], y[i])), RMul(s.d[i], z[i])), RMul(s.m[i], s.tau))])
    [] s.kind = "richards" ->
         LET a == LeftAsymp(s)
             v == RichV(s)
         IN Now([i \in 1..Len(x) |->
              IF REq(s.attr[i], a[i]) THEN Zero      \* nowhere to go
              ELSE LET u == RSub(x[i], a[i])
                   IN RDiv(RMul(RMul(s.alpha[i], u),
                                RSub(1, RPowR(RDiv(u, RSub(s.attr[i], a[i])), v[i]))), s.tau)])

(* The closed-form solution of the equation from xinit, at time t.         *)
Critical(s) == s.kind = "spring" =>
   \A i \in 1..N(s) : RNear(RMul(s.d[i], s.d[i]), RMul(RMul(4, s.m[i]), s.k[i]), RDec("1e-12"), Zero)
Solution(s, t) ==
  CASE s.kind = "exponential" ->
         Now([i \in 1..N(s) |-> RAdd(s.attr[i],
            RMul(RSub(s.xinit[i], s.attr[i]), RExp(RNeg(RDiv(RMul(s.alpha[i], t), s.tau)))))])
    [] s.kind = "sigmoid" ->
         LET c == Capacity(s)
         IN Now([i \in 1..N(s) |-> RDiv(c[i], RAdd(1, RMul(RSub(RDiv(c[i], s.xinit[i]), 1),
                                                      RExp(RNeg(RMul(s.rmax[i], t))))))])
    [] s.kind = "time" ->
         LET x == RDiv(t, s.tau) IN << IF s.down THEN RMax(Zero, RSub(s.xinit[1], x)) ELSE RMin(One, RAdd(s.xinit[1], x)) >>
    [] s.kind = "spring" ->        \* critically damped
         LET n == N(s)
             w == Now([i \in 1..n |-> RDiv(RSqrt(RDiv(s.k[i], s.m[i])), s.tau)])
             A == VSub(Low(s.xinit), s.attr)
             B == Now([i \in 1..n |-> RAdd(RDiv(s.xinit[n + i], s.tau), RMul(w[i], A[i]))])
             e == Now([i \in 1..n |-> RExp(RNeg(RMul(w[i], t)))])
             AB == Now([i \in 1..n |-> RAdd(A[i], RMul(B[i], t))])
         IN Now([i \in 1..n |-> RAdd(s.attr[i], RMul(AB[i], e[i]))])
            \o Now([i \in 1..n |-> RMul(s.tau, RMul(e[i], RSub(B[i], RMul(w[i], AB[i]))))])
    [] s.kind = "richards" ->
         LET a == LeftAsymp(s)
             v == RichV(s)
         IN Now([i \in 1..N(s) |->
              IF REq(s.attr[i], a[i]) THEN s.xinit[i]
              ELSE LET range == RSub(s.attr[i], a[i])
                       q == RSub(RPowR(RDiv(range, RSub(s.xinit[i], a[i])), v[i]), 1)
                       e == RExp(RNeg(RDiv(RMul(RMul(s.alpha[i], v[i]), t), s.tau)))
                   IN RAdd(a[i], RDiv(range, RPowR(RAdd(1, RMul(q, e)), RDiv(1, v[i]))))])

----------------------------------------------------------------------------
(* Integration steps for any rate function F.                              *)
EulerStep(F(_), dt, x) == LET xd == F(x) IN <<VAdd(x, VScale(dt, xd)), xd>>
RKStep(F(_), dt, x) ==
  LET h == RMul(Half, dt)
      k1 == F(x)
      k2 == F(VAdd(x, VScale(h, k1)))
      k3 == F(VAdd(x, VScale(h, k2)))
      k4 == F(VAdd(x, VScale(dt, k3)))
      s == VAdd(k1, VAdd(VScale(2, VAdd(k2, k3)), k4))
      new == VAdd(x, VScale(RDiv(dt, 6), s))
  IN <<new, F(new)>>
Stages(F(_), dt, x) ==      \* the states at which a Runge-Kutta step evaluates the rates
  LET h == RMul(Half, dt)
      s2 == VAdd(x, VScale(h, F(x)))
      s3 == VAdd(x, VScale(h, F(s2)))
      s4 == VAdd(x, VScale(dt, F(s3)))
  IN <<x, s2, s3, s4, RKStep(F, dt, x)[1]>>

----------------------------------------------------------------------------
(* Settings.                                                               *)
SetX0(s, x) == [s EXCEPT !.xinit = x]
\* An initial position: velocities start at zero.
SetY0(s, y) == [s EXCEPT !.xinit = IF s.kind = "spring" THEN y \o Zeros(Len(y)) ELSE y]
Set(s, what, v) ==
  CASE what = "tau" -> [s EXCEPT !.tau = v]
    [] what = "x_init" -> SetX0(s, v)
    [] what = "y_init" -> SetY0(s, v)
    [] what = "attr" -> [s EXCEPT !.attr = v]
    [] what = "alpha" -> [s EXCEPT !.alpha = v]
    [] what = "v" -> [s EXCEPT !.v = v]
    [] what = "infl" -> [s EXCEPT !.infl = v]
    [] what = "left" -> [s EXCEPT !.left = v]
    [] what = "d" -> [s EXCEPT !.d = v]
    [] what = "k" -> [s EXCEPT !.k = v]
    [] what = "m" -> [s EXCEPT !.m = v]
    [] what = "rmax" -> [s EXCEPT !.rmax = v]
    [] what = "down" -> [s EXCEPT !.down = v, !.xinit = <<IF v THEN One ELSE Zero>>]
    [] OTHER -> s

\* The attractor of a system, as a state, or << >> if it has none.
Attractor(s) ==
  CASE s.kind \in {"exponential", "richards"} -> s.attr
    [] s.kind = "spring" -> s.attr \o Zeros(Len(s.attr))
    [] s.kind = "time" -> <<IF s.down THEN Zero ELSE One>>
    [] OTHER -> << >>
=============================================================================
