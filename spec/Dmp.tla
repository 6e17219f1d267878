--------------------------------- MODULE Dmp ---------------------------------
(***************************************************************************)
(* Dynamical movement primitives: coupled dynamical systems with a learned *)
(* forcing term.  (dmpbbo/dmps/Dmp.py, DmpWithSchedules.py, src/dmp)       *)
(*                                                                         *)
(* A DMP p is a record with                                                *)
(*   tau, yinit, yattr  duration, initial state and goal                   *)
(*   k, d, m            spring constant, damping, mass, one per dimension  *)
(*   goal, damp         systems (of DynSys) for the delayed goal and the   *)
(*                      damping, or [kind |-> "none"]                      *)
(*   goalscaled         does the goal system run from 0 to 1?              *)
(*   phase, gating      systems of one dimension                           *)
(*   scaling, amps      "none", "g" (goal - initial state) or "amp"        *)
(*   fas                models (of FA), one per dimension, or << >>        *)
(*   sfas, smin, smax   models of the schedules, bounds (or << >>)         *)
(* A state x is a flat vector: y, z, goal, phase, gating, damping.         *)
(***************************************************************************)
EXTENDS DynSysNear, FA

Dims(p) == Len(p.yinit)
Goal0(p) == p.goal.kind # "none"
Damp0(p) == p.damp.kind # "none"

\* The systems of each type of DMP.
Ones(n) == Vec(n, One)
ExpSystem(tau, x, g, alpha) == [kind |-> "exponential", tau |-> tau, xinit |-> x, attr |-> g, alpha |-> Vec(Len(x), alpha)]
TimeSystem(tau, down) == [kind |-> "time", tau |-> tau, xinit |-> <<IF down THEN One ELSE Zero>>, down |-> down]
RichardsSystem(tau, x, g, infl, alpha, v) ==
  [kind |-> "richards", tau |-> tau, xinit |-> x, attr |-> g, infl |-> Vec(Len(x), infl),
   alpha |-> Vec(Len(x), alpha), v |-> Vec(Len(x), v), left |-> << >>]
\* A sigmoid from 1 (with capacity 1 + 1e-6) that is at the given ratio at time tau.
GatingSigmoid(tau, ratio) ==
  LET D == RDec("1e-6")
      r == RDiv(RNeg(RLog(RDiv(RSub(RDiv(RAdd(1, D), ratio), 1), D))), tau)
  IN [kind |-> "sigmoid", tau |-> tau, xinit |-> <<One>>, rmax |-> <<r>>,
      infl |-> <<RDiv(RDiv(RLog(D), r), tau)>>]
NoSystem == [kind |-> "none"]
\* type is a record: name ("ijspeert", "kulvicius", "countdown", "richards"), goalscaled, damping
Systems(type, tau, yinit, yattr, d) ==
  LET n == Len(yinit) IN
  CASE type.name = "ijspeert" ->
         [goal |-> NoSystem, goalscaled |-> FALSE, damp |-> NoSystem,
          phase |-> ExpSystem(tau, <<One>>, <<Zero>>, 4), gating |-> ExpSystem(tau, <<One>>, <<Zero>>, 4)]
    [] type.name \in {"kulvicius", "countdown"} ->
         [goal |-> ExpSystem(tau, yinit, yattr, 15), goalscaled |-> FALSE, damp |-> NoSystem,
          phase |-> TimeSystem(tau, type.name = "countdown"), gating |-> GatingSigmoid(tau, RDec("0.1"))]
    [] type.name = "richards" ->
         [goal |-> IF type.goalscaled THEN RichardsSystem(tau, Zeros(n), Ones(n), RDec("0.3"), 10, 1)
                   ELSE RichardsSystem(tau, yinit, yattr, RDec("0.3"), 10, 1),
          goalscaled |-> type.goalscaled,
          damp |-> IF type.damping THEN ExpSystem(tau, VScale(RDec("0.1"), d), d, 4) ELSE NoSystem,
          phase |-> TimeSystem(tau, TRUE), gating |-> RichardsSystem(tau, <<One>>, <<Zero>>, 1, 10, 10)]

----------------------------------------------------------------------------
(* The state vector and the coupled differential equation.                 *)
Y(p, x) == SubSeq(x, 1, Dims(p))
Z(p, x) == SubSeq(x, Dims(p) + 1, 2 * Dims(p))
G(p, x) == SubSeq(x, 2 * Dims(p) + 1, 3 * Dims(p))
Ph(p, x) == SubSeq(x, 3 * Dims(p) + 1, 3 * Dims(p) + 1)
Ga(p, x) == SubSeq(x, 3 * Dims(p) + 2, 3 * Dims(p) + 2)
Da(p, x) == SubSeq(x, 3 * Dims(p) + 3, 4 * Dims(p) + 2)
DimX(p) == 4 * Dims(p) + 2

ScaledGoal(p, g) == IF p.goalscaled
                    THEN Now([i \in 1..Dims(p) |-> RAdd(p.yinit[i], RMul(RSub(p.yattr[i], p.yinit[i]), g[i]))])
                    ELSE g
\* What the spring is drawn to, and its damping, in a state with goal part g and damping part d.
SpringGoal(p, g) == IF Goal0(p) THEN ScaledGoal(p, g) ELSE p.yattr
SpringDamp(p, d) == IF Damp0(p) THEN d ELSE p.d

FaOut(p, phase) == Now([i \in 1..Dims(p) |->
   IF p.fas = << >> THEN Zero ELSE IF p.fas[i].kind = "none" THEN Zero ELSE Predict(p.fas[i], phase)])
Scales(p) == CASE p.scaling = "none" -> Ones(Dims(p))
               [] p.scaling = "g" -> VSub(p.yattr, p.yinit)
               [] p.scaling = "amp" -> p.amps
Forcing(p, phase, gating) == VMul(VScale(gating[1], FaOut(p, phase)), Scales(p))
\* Terms of the rate of z: spring, damping, forcing.
ZTerms(p, y, z, g, d, f) == Now([i \in 1..Dims(p) |->
   <<RDiv(RMul(p.k[i], RSub(g[i], y[i])), RMul(p.m[i], p.tau)),
     RDiv(RNeg(RMul(d[i], z[i])), RMul(p.m[i], p.tau)),
     RDiv(f[i], p.tau)>>])
ZRate(p, y, z, g, d, f) == LET t == ZTerms(p, y, z, g, d, f) IN Now([i \in 1..Dims(p) |-> RSum(t[i])])

DmpRate(p, x) ==
  VScale(RDiv(1, p.tau), Z(p, x))
  \o ZRate(p, Y(p, x), Z(p, x), SpringGoal(p, G(p, x)), SpringDamp(p, Da(p, x)), Forcing(p, Ph(p, x), Ga(p, x)))
  \o (IF Goal0(p) THEN Rate(p.goal, G(p, x)) ELSE Zeros(Dims(p)))
  \o Rate(p.phase, Ph(p, x)) \o Rate(p.gating, Ga(p, x))
  \o (IF Damp0(p) THEN Rate(p.damp, Da(p, x)) ELSE Zeros(Dims(p)))

DmpStart(p) ==
  p.yinit \o Zeros(Dims(p)) \o (IF Goal0(p) THEN p.goal.xinit ELSE p.yattr)
  \o p.phase.xinit \o p.gating.xinit \o (IF Damp0(p) THEN p.damp.xinit ELSE p.d)

\* Positions, velocities and accelerations of a state and its rates.
PosVelAcc(p, x, xd) == <<Y(p, x), Y(p, xd), VScale(RDiv(1, p.tau), Z(p, xd))>>

----------------------------------------------------------------------------
(* Settings.                                                               *)
ScaleTime(s, c) ==
  IF s.kind = "none" THEN s
  ELSE IF s.kind = "sigmoid" THEN [s EXCEPT !.tau = RMul(c, s.tau), !.rmax = VScale(RDiv(1, c), s.rmax)]
  ELSE [s EXCEPT !.tau = RMul(c, s.tau)]
SetTau(p, t) ==
  LET c == RDiv(t, p.tau)
  IN [p EXCEPT !.tau = t, !.goal = ScaleTime(p.goal, c), !.phase = ScaleTime(p.phase, c),
               !.gating = ScaleTime(p.gating, c), !.damp = ScaleTime(p.damp, c)]
SetYInit(p, y) == IF Goal0(p) /\ ~p.goalscaled THEN [p EXCEPT !.yinit = y, !.goal.xinit = y] ELSE [p EXCEPT !.yinit = y]
SetYAttr(p, y) == IF Goal0(p) /\ ~p.goalscaled THEN [p EXCEPT !.yattr = y, !.goal.attr = y] ELSE [p EXCEPT !.yattr = y]
\* A parameter of a subsystem.
SetSub(p, system, name, v) ==
  CASE system = "spring_system" -> [p EXCEPT !.k = IF name = "k" THEN v ELSE @, !.d = IF name = "d" THEN v ELSE @,
                                             !.m = IF name = "m" THEN v ELSE @]
    [] system = "goal_system" -> [p EXCEPT !.goal = Set(@, name, v)]
    [] system = "damping_system" -> [p EXCEPT !.damp = Set(@, name, v)]

----------------------------------------------------------------------------
(* Training on a trajectory: ts, ys, yds, ydds (with ts[1] = 0).           *)
Range(m, d) == LET c == Col(m, d) IN RSub(RMaxSeq(c), RMinSeq(c))
Prepare(p, ts, ys) ==
  [SetYAttr(SetYInit(SetTau(p, ts[Len(ts)]), ys[1]), ys[Len(ys)])
     EXCEPT !.amps = Now([d \in 1..Dims(p) |-> Range(ys, d)])]
\* The terms whose sum is the target at one time, before gating and scaling.
TargetTerms(p, t, y, yd, ydd) ==
  LET g == SpringGoal(p, IF Goal0(p) THEN Solution(p.goal, t) ELSE p.yattr)
      d == SpringDamp(p, IF Damp0(p) THEN Solution(p.damp, t) ELSE p.d)
  IN Now([i \in 1..Dims(p) |->
       <<RMul(RMul(p.tau, p.tau), ydd[i]), RDiv(RMul(p.k[i], RSub(y[i], g[i])), p.m[i]),
         RDiv(RMul(RMul(d[i], p.tau), yd[i]), p.m[i])>>])
\* Which target makes the forcing term at time t the one with these terms?
TargetOk(p, t, terms, got, tol) ==
  LET ga == Solution(p.gating, t)[1]
      sc == Scales(p)
  IN \A i \in 1..Dims(p) :
       LET c == RMul(ga, sc[i])
           sizes == RSum([j \in 1..3 |-> RAbs(terms[i][j])])
       IN IF REq(sc[i], Zero) THEN REq(got[i], Zero)
          \* (doubles know a gating that has almost vanished to within 1e-14 only)
          ELSE RLe(RAbs(ga), RDec("1e-13")) \/ RLe(RAbs(RSub(RMul(c, got[i]), RSum(terms[i]))),
                   RMul(RAdd(tol, RDiv(RDec("1e-13"), RAbs(ga))), RAdd(sizes, RDec("1e-6"))))

----------------------------------------------------------------------------
(* Parameter vectors: those of the function approximators that have been   *)
(* trained, then the goal, then those of the schedules.                    *)
(* A selection: fa, sched (sequences of names) and goal (BOOLEAN).         *)
NoSelection == [fa |-> << >>, goal |-> FALSE, sched |-> << >>]
RECURSIVE ParamsOf(_, _)
ParamsOf(models, names) ==
  IF models = << >> THEN << >>
  ELSE (IF Head(models).kind = "none" THEN << >> ELSE GetParams(Head(models), names)) \o ParamsOf(Tail(models), names)
DmpParams(p, sel) == ParamsOf(p.fas, sel.fa) \o (IF sel.goal THEN p.yattr ELSE << >>) \o ParamsOf(p.sfas, sel.sched)
RECURSIVE SetParamsOf(_, _, _)
SetParamsOf(models, names, v) ==
  IF models = << >> THEN << >>
  ELSE IF Head(models).kind = "none" THEN <<Head(models)>> \o SetParamsOf(Tail(models), names, v)
  ELSE LET n == Len(GetParams(Head(models), names))
       IN <<SetParams(Head(models), names, SubSeq(v, 1, n))>> \o SetParamsOf(Tail(models), names, SubSeq(v, n + 1, Len(v)))
SetDmpParams(p, sel, v) ==
  LET a == Len(ParamsOf(p.fas, sel.fa))
      b == IF sel.goal THEN Dims(p) ELSE 0
      q == [p EXCEPT !.fas = SetParamsOf(@, sel.fa, SubSeq(v, 1, a)),
                     !.sfas = SetParamsOf(@, sel.sched, SubSeq(v, a + b + 1, Len(v)))]
  IN IF sel.goal THEN SetYAttr(q, SubSeq(v, a + 1, a + b)) ELSE q

----------------------------------------------------------------------------
(* Schedules.                                                              *)
Clip(x, lo, hi, i) == LET a == IF lo = << >> THEN x ELSE RMax(x, lo[i]) IN IF hi = << >> THEN a ELSE RMin(a, hi[i])
Schedules(p, phase) == Now([i \in 1..Len(p.sfas) |-> Clip(Predict(p.sfas[i], phase), p.smin, p.smax, i)])
=============================================================================
