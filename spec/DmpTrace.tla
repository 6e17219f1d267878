------------------------------- MODULE DmpTrace -------------------------------
(* Recorded calls on a DMP (with or without schedules) against Dmp.        *)
EXTENDS Dmp, Plot, TraceKit

VARIABLES p,      \* the DMP as it has been set
          sel,    \* selected parameters
          last    \* last training: ts, targets (one row per time) and DMP without approximators

DmpOfCfg(c) ==
  LET d == c.d
      sub == Systems(c.type, c.tau, c.yinit, c.yattr, d)
      pick(f) == IF f \in DOMAIN c.override THEN c.override[f] ELSE sub[f]
  IN Now([tau |-> c.tau, yinit |-> c.yinit, yattr |-> c.yattr, k |-> c.k, d |-> d, m |-> c.m,
      goal |-> pick("goal"), damp |-> pick("damp"), phase |-> pick("phase"), gating |-> pick("gating"),
      goalscaled |-> sub.goalscaled, scaling |-> c.scaling, amps |-> c.amps, fas |-> c.fas,
      sfas |-> c.sfas, smin |-> c.smin, smax |-> c.smax])

TraceInit == KitInit /\ p = DmpOfCfg(T[tr].cfg) /\ sel = NoSelection /\ last = [ts |-> << >>]

Loose == RDec("1e-7")
n == Dims(p)

\* Is f the output of the approximator of dimension i at this phase?
FaOk(i, phase, f, tol) == IF p.fas = << >> THEN REq(f, Zero) ELSE IF p.fas[i].kind = "none" THEN REq(f, Zero)
                          ELSE PredictionOk(p.fas[i], phase, f, tol)
FaSizeOf(q, i, phase) == IF q.fas = << >> THEN Zero ELSE IF q.fas[i].kind = "none" THEN Zero
                         ELSE LET t == Terms(q.fas[i], phase) IN RSum([j \in 1..Len(t) |-> RAbs(t[j])])
FaSize(i, phase) == FaSizeOf(p, i, phase)
\* Are zd the rates of z, given the forcing term?
ZRateOk(x, zd, f, fsize) ==
  LET t == ZTerms(p, Y(p, x), Z(p, x), SpringGoal(p, G(p, x)), SpringDamp(p, Da(p, x)), f)
  IN /\ Len(zd) = n
     /\ \A i \in 1..n : RNear(zd[i], RSum(t[i]), Zero,
          RMul(Tol, RAdd(RAdd(One, RDiv(fsize[i], p.tau)), RAdd(RAbs(t[i][1]), RAbs(t[i][2])))))
SubRateOk(s, x, xd) == IF s.kind = "none" THEN VEq(xd, Zeros(Len(x))) ELSE RateOk(s, x, xd)
RatesOk(x, xd) ==
  << <<"one number per state", Len(xd) = DimX(p) /\ Len(x) = DimX(p)>> >>
  \o (IF Len(xd) # DimX(p) \/ Len(x) # DimX(p) \/ (\E i \in 1..Len(x) : ~RDef(x[i])) THEN << >> ELSE   \* (states are judged themselves)
  << <<"rate of y is z / tau", VClose(Y(p, xd), VScale(RDiv(1, p.tau), Z(p, x)), Tol)>>,
     <<"rate of z is that of the spring-damper and the forcing term",
       ZRateOk(x, Z(p, xd), Forcing(p, Ph(p, x), Ga(p, x)),
               [i \in 1..n |-> RMul(RMul(RAbs(Ga(p, x)[1]), FaSize(i, Ph(p, x))), RAbs(Scales(p)[i]))])>>,
     <<"rate of the goal is that of its system", SubRateOk(p.goal, G(p, x), G(p, xd))>>,
     <<"rate of the phase is that of its system", RateOk(p.phase, Ph(p, x), Ph(p, xd))>>,
     <<"rate of the gating is that of its system", RateOk(p.gating, Ga(p, x), Ga(p, xd))>>,
     <<"rate of the damping is that of its system", SubRateOk(p.damp, Da(p, x), Da(p, xd))>> >>)
\* The rates at the stages of a step are as large as this.
StepOkD(method, dt, x, x2, xd2) ==
  LET F(y) == DmpRate(p, y)
      st == Stages(F, dt, x)
      edge == \E i \in 1..5 : AtEnd(p.phase, Ph(p, st[i]))
      want == IF method = "euler" THEN EulerStep(F, dt, x)[1] ELSE RKStep(F, dt, x)[1]
      size(i) == RAdd(RAdd(One, RAbs(x[i])), RMul(Two, RAdd(RAbs(RSub(want[i], x[i])),
                    RMaxSeq([j \in 1..4 |-> IF RDef(st[j][i]) THEN RAbs(RSub(st[j][i], x[i])) ELSE Zero]))))
      \* beyond the left asymptote of a Richards system there are no (real) rates
      rich == "richards" \in {p.goal.kind, p.gating.kind, p.phase.kind}
      near(i) == \/ rich /\ ~RDef(want[i])
                 \/ RNear(x2[i], want[i], Zero, RMul(Loose, size(i)))
      \* a step that is far too large leaves no states that a double can hold
      lost == Wild(x) \/ Wild(want) \/ \E j \in 1..5 : Wild(st[j])
  IN IF lost THEN << >>
     ELSE << <<"state after the step is that of the method", Len(x2) = DimX(p) /\
          (IF edge THEN \A i \in (2 * n + 1)..DimX(p) : i = 3 * n + 1 \/ near(i) ELSE \A i \in 1..DimX(p) : near(i))>> >>
     \o RatesOk(IF method = "euler" THEN x ELSE x2, xd2)
RECURSIVE All(_, _, _)
All(f(_), i, k) == IF i > k THEN << >> ELSE f(i) \o All(f, i + 1, k)

\* Rows of an analytical solution.
SolRow(e, i, suppress) ==
  LET x == e.xs[i]
      xd == e.xds[i]
      t == e.ts[i]
      f == e.forcing[i]
      sol(s) == Solution(s, t)
      rowOk(s, got) == VClose(got, sol(s), SolTolOf(s))
      rateOk(s, got, rate) == RateOk(s, got, rate) \/ (s.kind = "time" /\ AtEnd(s, sol(s)) /\ RateOk(s, sol(s), rate))
  IN << <<"phase, gating, goal and damping are the solutions of their systems",
          /\ rowOk(p.phase, Ph(p, x)) /\ rowOk(p.gating, Ga(p, x))
          /\ (IF Goal0(p) THEN rowOk(p.goal, G(p, x)) ELSE VEq(G(p, x), p.yattr))
          /\ (IF Damp0(p) THEN rowOk(p.damp, Da(p, x)) ELSE VEq(Da(p, x), p.d))>>,
        <<"rates of phase, gating, goal and damping are those of their systems",
          /\ rateOk(p.phase, Ph(p, x), Ph(p, xd)) /\ rateOk(p.gating, Ga(p, x), Ga(p, xd))
          /\ (IF Goal0(p) THEN rateOk(p.goal, G(p, x), G(p, xd)) ELSE VEq(G(p, xd), Zeros(n)))
          /\ (IF Damp0(p) THEN rateOk(p.damp, Da(p, x), Da(p, xd)) ELSE VEq(Da(p, xd), Zeros(n)))>>,
        <<"approximator output is that at the phase", \A d \in 1..n :
           IF suppress THEN REq(e.fa[i][d], Zero) ELSE FaOk(d, Ph(p, x), e.fa[i][d], Tol)>>,
        <<"forcing term is the gated and scaled output of the approximators",
          VClose(f, VMul(VScale(Ga(p, x)[1], e.fa[i]), Scales(p)), Tol)>>,
        <<"rates of y and z are those of the spring-damper and the forcing term",
          /\ VClose(Y(p, xd), VScale(RDiv(1, p.tau), Z(p, x)), Tol)
          /\ ZRateOk(x, Z(p, xd), f, [j \in 1..n |-> RAbs(f[j])])>>,
        <<"positions and velocities follow from the row before",
          IF i = 1 THEN VEq(Y(p, x), p.yinit) /\ VEq(Z(p, x), Zeros(n))
          ELSE LET dt == RSub(t, e.ts[i - 1])
               IN \A j \in 1..(2 * n) :
                    LET w == RMul(dt, e.xds[i - 1][j])
                    IN RNear(x[j], RAdd(e.xs[i - 1][j], w), Zero, RMul(Tol, RAdd(One, RAdd(RAbs(w), RAbs(e.xs[i - 1][j])))))>> >>

SchedOk(phase, s) == Len(s) = Len(p.sfas) /\ \A i \in 1..Len(s) :
  /\ (p.smin # << >> => RLe(p.smin[i], s[i])) /\ (p.smax # << >> => RLe(s[i], p.smax[i]))
  /\ LET t == Terms(p.sfas[i], phase)
         size == RSum([j \in 1..Len(t) |-> RAbs(t[j])])
     IN RNear(s[i], Clip(RSum(t), p.smin, p.smax, i), Zero, RMul(Tol, RAdd(One, size)))
SameModels(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameModel(a[i], b[i])

Judged(e, clauses) == Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE clauses)
Size(e) == << <<"accepts values of the right size only", (e.out = "ok") = e.valid>> >>
SchedClause(e, x) == IF Has(e, "sched") THEN << <<"schedules are the bounded output of their approximators", SchedOk(Ph(p, x), e.sched)>> >> ELSE << >>

\* The largest error of the forcing terms at the training samples.
FitError(q, i) ==
  RMaxSeq([t \in 1..Len(last.ts) |->
     RAbs(RMul(RMul(Solution(last.p.gating, last.ts[t])[1], Scales(last.p)[i]),
               RSub(Predict(q.fas[i], Solution(last.p.phase, last.ts[t])), last.targets[t][i])))])

\* The lines of a plot, given the solution.
SpringLines(ts, xs, xds) == Lines(ts, Part(xs, 1, n)) \o Lines(ts, Part(xds, 1, n)) \o Lines(ts, Rows(Part(xds, n + 1, 2 * n), RDiv(1, p.tau)))
Wanted(e) ==
  LET col(a, b) == Lines(e.ts, Part(e.xs, a, b))
      spring == SpringLines(e.ts, e.xs, e.xds)
      k == IF e.what = "comparison" THEN e.axes ELSE 0
      upto(ts, ys, yds, ydds) == Lines(ts, ys) \o (IF k = 1 THEN << >> ELSE Lines(ts, yds)) \o (IF k \in {1, 2} THEN << >> ELSE Lines(ts, ydds))
  IN IF e.what = "comparison"
     THEN upto(e.demo.ts, e.demo.ys, e.demo.yds, e.demo.ydds)
          \o upto(e.ts, Part(e.xs, 1, n), Part(e.xds, 1, n), Rows(Part(e.xds, n + 1, 2 * n), RDiv(1, p.tau)))
     ELSE spring \o col(2 * n + 1, 3 * n) \o (IF e.what = "compact" THEN << >> ELSE col(3 * n + 1, 3 * n + 1)) \o col(3 * n + 2, 3 * n + 2)
          \o (IF e.what = "states" THEN << >> ELSE Lines(e.ts, e.forcing) \o Lines(e.ts, e.fa))
          \o (IF e.what = "also" THEN SpringLines(e.ts, e.no.xs, e.no.xds) ELSE << >>)
          \o (IF e.what = "sched" THEN Lines(e.ts, e.sched) ELSE << >>)

Do(e) ==
  CASE e.op = "tau" -> p' = Now(SetTau(p, e.v)) /\ UNCHANGED <<sel, last>> /\ Judged(e, << >>)
    [] e.op = "y_init" -> p' = (IF e.valid THEN Now(SetYInit(p, e.v)) ELSE p) /\ UNCHANGED <<sel, last>> /\ Judge(Size(e))
    [] e.op = "y_attr" -> p' = (IF e.valid THEN Now(SetYAttr(p, e.v)) ELSE p) /\ UNCHANGED <<sel, last>> /\ Judge(Size(e))
    [] e.op = "sub" -> p' = Now(SetSub(p, e.system, e.what, e.v)) /\ UNCHANGED <<sel, last>> /\ Judged(e, << >>)
    [] e.op \in {"decouple", "json", "copy"} -> UNCHANGED <<p, sel, last>> /\ Judged(e, << >>)
    [] e.op = "mutate" -> UNCHANGED <<p, sel, last>>
    [] e.op = "read" ->
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"reports its settings", REq(e.tau, p.tau) /\ VEq(e.y_init, p.yinit) /\ VEq(e.y_attr, p.yattr)>>,
                         <<"reports its dimensions", e.dim_y = n /\ e.dim_x = DimX(p)>>,
                         <<"parameters are those that were set or trained", SameModels(e.fas, p.fas) /\ SameModels(e.sfas, p.sfas)>>,
                         <<"times of the training", VEq(e.ts_train, last.ts)>> >>)
    [] e.op = "start" ->
         LET q == IF e.y0 = << >> THEN p ELSE Now(SetYInit(p, e.y0))
         IN /\ p' = q /\ UNCHANGED <<sel, last>>
            /\ Judged(e, << <<"starts in the initial state", VClose(e.x, DmpStart(q), Tol) /\ VEq(Y(p, e.x), q.yinit)>> >>)
    [] e.op = "rate" ->
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, RatesOk(e.x, e.xd) \o << <<"argument unchanged", e.unmodified>> >> \o SchedClause(e, e.x))
    [] e.op = "step" ->
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, StepOkD(e.method, e.dt, e.x, e.x2, e.xd2) \o << <<"argument unchanged", e.unmodified>> >> \o SchedClause(e, e.x2))
    [] e.op = "integrate" ->
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"starts in the initial state", Len(e.xs) = Len(e.ts) /\ VClose(e.xs[1], DmpStart(p), Tol)>>,
                         <<"argument unchanged", e.unmodified>> >>
              \o (IF Len(e.xs) # Len(e.ts) THEN << >> ELSE
                  All(LAMBDA i : StepOkD(e.method, RSub(e.ts[i], e.ts[i - 1]), e.xs[i - 1], e.xs[i], e.xds[i]), 2, Len(e.ts))))
    [] e.op = "solution" ->
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"one row per time", Len(e.xs) = Len(e.ts) /\ Len(e.xds) = Len(e.ts) /\ Len(e.forcing) = Len(e.ts) /\ Len(e.fa) = Len(e.ts)>>,
                         <<"argument unchanged", e.unmodified>>,
                         <<"times of the training if none are given", e.given \/ VEq(e.ts, last.ts)>> >>
              \o All(LAMBDA i : SolRow(e, i, e.suppress), 1, Len(e.ts))
              \o (IF Has(e, "scheds") THEN << <<"schedules are the bounded output of their approximators",
                    Len(e.scheds) = Len(e.ts) /\ \A i \in 1..Len(e.ts) : SchedOk(Ph(p, e.xs[i]), e.scheds[i])>> >> ELSE << >>))
    [] e.op = "traj" ->      \* states as positions, velocities and accelerations
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"one row per time", Len(e.ys) = Len(e.xs) /\ Len(e.yds) = Len(e.xs) /\ Len(e.ydds) = Len(e.xs)>>,
                         <<"positions, velocities and accelerations are those of the states", \A i \in 1..Len(e.xs) :
                             LET w == PosVelAcc(p, e.xs[i], e.xds[i])
                             IN VEq(e.ys[i], w[1]) /\ VEq(e.yds[i], w[2]) /\ VClose(e.ydds[i], w[3], Tol)>>,
                         <<"times are those given", Has(e, "tts") => VEq(e.tts, e.ts)>>,
                         <<"schedules are those given", Has(e, "misc") => MEq(e.misc, e.scheds)>> >>)
    [] e.op = "plot" ->
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"what is drawn are the states, rates, forcing terms and approximator outputs of the solution", Drawn(e.lines, Wanted(e))>>,
                         <<"what was given is unchanged", e.unmodified>> >>)
    [] e.op = "train" ->
         IF e.out # "ok" THEN UNCHANGED <<p, sel, last>> /\ Judge(<< <<"accepted", FALSE>> >>)
         ELSE
         \* (bound like this: TLC evaluates what LET defines in an action at each use)
         \E q \in { Now(Prepare(p, e.ts, e.ys)) } :
         LET logged == { e.log[i].dim : i \in 1..Len(e.log) }
             sublog(i) == e.log[CHOOSE j \in 1..Len(e.log) : e.log[j].dim = i]
             want == IF e.nofas THEN {} ELSE 1..(n + Len(p.sfas))
             complete == logged = want /\ Len(e.log) = Cardinality(want)
             full == \A i \in want : Len(sublog(i).inputs) = Len(e.ts) /\ Len(sublog(i).targets) = Len(e.ts)
             T1 == 1..Len(e.ts)
         IN /\ p' = Now([q EXCEPT !.fas = e.fas, !.sfas = e.sfas])
            /\ last' = [ts |-> e.ts, p |-> q, targets |-> IF complete /\ ~e.nofas /\ full
                          THEN Now([t \in T1 |-> [i \in 1..n |-> sublog(i).targets[t]]]) ELSE << >>]
            /\ UNCHANGED sel
            /\ Judge(<< <<"trajectory unchanged", e.unmodified>>,
                        <<"every approximator is trained once", complete>> >>
                     \o (IF ~complete \/ e.nofas THEN << >> ELSE
                     << <<"one input and target per sample", full>> >>)
                     \o (IF ~complete \/ e.nofas \/ ~full THEN << >> ELSE
                     << <<"inputs are the phase", \A i \in want : \A t \in T1 :
                            RNear(sublog(i).inputs[t], Solution(q.phase, e.ts[t])[1], Zero, Tol)>>,
                        <<"targets reproduce the accelerations", \A t \in T1 :
                            TargetOk(q, e.ts[t], TargetTerms(q, e.ts[t], e.ys[t], e.yds[t], e.ydds[t]), [i \in 1..n |-> sublog(i).targets[t]], RDec("1e-6"))>>,
                        <<"schedules are learnt from the schedules", \A t \in T1 : \A i \in 1..Len(p.sfas) :
                            REq(sublog(n + i).targets[t], e.scheds[t][i])>>,
                        <<"approximators are those trained on the targets", \A i \in want :
                            SameModel(sublog(i).model, (e.fas \o e.sfas)[i]) /\ SameTraining(sublog(i).fresh, sublog(i).model, [t \in T1 |-> <<sublog(i).inputs[t]>>])>> >>))
    [] e.op = "select" ->
         /\ sel' = [fa |-> e.fa, goal |-> e.goal, sched |-> e.sched] /\ UNCHANGED <<p, last>>
         /\ Judged(e, << >>)
    [] e.op = "get" ->
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"gives the selected parameters", VEq(e.v, DmpParams(p, sel))>>,
                         <<"size of the parameter vector", e.size = Len(DmpParams(p, sel))>>,
                         <<"flat vector", e.flat>> >>)
    [] e.op = "set" ->
         LET good == Len(e.v) = Len(DmpParams(p, sel))
         IN /\ p' = (IF good THEN Now(SetDmpParams(p, sel, e.v)) ELSE p) /\ UNCHANGED <<sel, last>>
            /\ Judge(<< <<"accepts vectors of the right size only", (e.out = "ok") = good>>, <<"argument unchanged", e.unmodified>> >>)
    [] e.op = "agree" ->     \* fine integration and solution at the same times: ts, xi, xa (positions only), dt
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"integration and solution agree", \A i \in 1..Len(e.ts) :
                \A j \in 1..n : RNear(e.xi[i][j], e.xa[i][j], Zero, RMul(RMul(RDiv(e.dt, p.tau), RDec("60")),
                    RAdd(RDec("0.001"), RMaxSeq([k \in 1..Len(e.ts) |-> RAbs(RSub(e.xi[k][j], p.yinit[j]))]))))>>,
                 <<"starts at rest in the initial state", VEq(e.xi[1], p.yinit) /\ VEq(e.xa[1], p.yinit) /\ VClose(e.v0, Zeros(2 * n), Tol)>> >>)
    [] e.op = "converged" ->     \* state long after the movement
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"converges to the goal", \A j \in 1..n :
                RNear(e.x[j], p.yattr[j], Zero, RMul(RDec("0.001"), RAdd(One, RAdd(RAbs(RSub(p.yattr[j], p.yinit[j])), e.size[j]))))>>,
                 <<"comes to rest", VNear(Z(p, e.x), Zeros(n), Zero, RMul(RDec("0.02"), RAdd(One, RMaxSeq([j \in 1..n |->
                     RAdd(RAbs(RSub(p.yattr[j], p.yinit[j])), e.size[j])])))) >>,
                 <<"forcing term has vanished", RLe(RAbs(Ga(p, e.x)[1]), RDec("0.001"))>> >>)
    [] e.op = "tauscale" ->      \* the same movement with another tau: states at scaled times
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"tau scales time only", Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) :
                LET s == RMul(RDec("1e-6"), RAdd(VScaleOf(e.a[i]), e.size)) IN
                \A j \in 1..Len(e.a[i]) : RNear(e.a[i][j], e.b[i][j], Zero, s)>> >>)
    [] e.op = "reproduce" ->     \* demonstration and reproduced positions at some times
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e, << <<"follows the demonstration", \A j \in 1..n :
                LET err == RDiv(RMul(FitError(p, j), p.m[j]), p.k[j])
                    range == RSub(RMaxSeq(Col(e.demo, j)), RMinSeq(Col(e.demo, j)))
                    tol == RAdd(RMul(RDec("3"), err), RMul(e.slack, RAdd(range, RDec("0.001"))))
                IN \A i \in 1..Len(e.ys) : RNear(e.ys[i][j], e.demo[i][j], Zero, tol)>> >>)
    [] e.op = "phases" ->        \* phase and gating over a long time: rows <<phase, gating>>
         /\ UNCHANGED <<p, sel, last>>
         /\ Judged(e,
            LET up == p.phase.kind = "time" /\ ~p.phase.down
                sgn(v) == IF up THEN v ELSE RSub(1, v)
                m == Len(e.rows)
                step == RAdd(RDiv(e.dt, p.tau), Tol)
            IN << <<"one row per time", m = Len(e.ts)>>,
                  <<"phase and gating begin at their start", REq(sgn(e.rows[1][1]), Zero) /\ REq(e.rows[1][2], One)>>,
                  <<"phase is monotone", \A i \in 2..m : RLe(sgn(e.rows[i - 1][1]), RAdd(sgn(e.rows[i][1]), RDec("1e-12")))>>,
                  <<"gating never increases", \A i \in 2..m : RLe(e.rows[i][2], RAdd(e.rows[i - 1][2], RDec("1e-9")))>>,
                  <<"phase stays in its range to within a step", \A i \in 1..m : RLe(Zero, sgn(e.rows[i][1])) /\ RLe(sgn(e.rows[i][1]), RAdd(One, step))>>,
                  <<"gating stays in its range", \A i \in 1..m : RLe(RDec("-0.01"), e.rows[i][2]) /\ RLe(e.rows[i][2], One)>>,
                  <<"phase ends at tau and stays at its end", p.phase.kind = "time" =>
                     /\ \A i \in 1..m : RLe(e.ts[i], RSub(p.tau, e.dt)) => RNear(sgn(e.rows[i][1]), RDiv(e.ts[i], p.tau), Tol, Tol)
                     /\ \A i \in 1..m : RLe(RAdd(p.tau, e.dt), e.ts[i]) => RLe(RSub(1, Tol), sgn(e.rows[i][1]))
                     /\ \A i \in 2..m : RLe(1, sgn(e.rows[i - 1][1])) => REq(e.rows[i][1], e.rows[i - 1][1])>>,
                  <<"phase has decayed", p.phase.kind = "exponential" => RNear(e.rows[m][1], Zero, Zero, RDec("0.01"))>>,
                  <<"gating vanishes", RNear(e.rows[m][2], Zero, Zero, RDec("0.01"))>> >>)
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<p, sel, last, tr, pos>>
=============================================================================
