---------------------------- MODULE DynSysTrace ----------------------------
(* Recorded calls on dynamical systems against DynSys.                     *)
EXTENDS DynSysNear, Plot, TraceKit

VARIABLE s                \* the system as it has been set
TraceInit == KitInit /\ s = T[tr].cfg.sys

F(x) == Rate(s, x)
Kept == RLt(SolTolOf(s), RDec("1e-5"))    \* (not lost in rounding)
AgreeTol(e) == IF s.kind = "time" THEN RAdd(RDiv(e.t, RMul(s.tau, e.steps)), Tol) ELSE RDec("1e-4")
\* After a change (or none), the system as reported.
ReadOk(e) == /\ REq(e.tau, s.tau) /\ VEq(e.x_init, s.xinit)
             /\ VEq(e.y_init, SubSeq(s.xinit, 1, N(s)))
             /\ e.dim_x = Len(s.xinit) /\ e.dim_y = N(s)
             /\ (e.attr # << >> => VEq(e.attr, s.attr))

Do(e) ==
  CASE e.op = "set" ->
         /\ s' = IF e.valid THEN Now(Set(s, e.what, e.v)) ELSE s
         /\ Judge(<< <<"accepts values of the right size only", (e.out = "ok") = e.valid>> >>)
    [] e.op = "decouple" -> UNCHANGED s /\ Judge(<< <<"accepted", e.out = "ok">> >>)
    [] e.op = "json" -> UNCHANGED s /\ Judge(<< <<"saved and loaded", e.out = "ok">> >>)
    [] e.op = "mutate" -> UNCHANGED s
    [] e.op = "read" -> UNCHANGED s /\ Judge(<< <<"reports its settings", ReadOk(e)>> >>)
    [] e.op = "start" ->
         LET s2 == IF e.y0 = << >> THEN s ELSE Now(SetY0(s, e.y0))
         IN /\ s' = s2
            /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
                     << <<"starts in the initial state", VEq(e.x, s2.xinit)>>,
                        <<"rates of the initial state", RateOk(s2, e.x, e.xd)>>,
                        <<"flat vectors", e.flat>> >>)
    [] e.op = "rate" ->
         /\ UNCHANGED s
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
                  << <<"rates are those of the equation", RateOk(s, e.x, e.xd)>>,
                     <<"argument unchanged", e.unmodified>>, <<"flat vector", e.flat>> >>)
    [] e.op = "step" ->
         /\ UNCHANGED s
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
                  << <<"step is that of the method", StepOk(s, e.method, e.dt, e.x, e.x2, e.xd2)>>,
                     <<"argument unchanged", e.unmodified>>, <<"flat vectors", e.flat>> >>)
    [] e.op = "integrate" ->
         /\ UNCHANGED s
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
                  << <<"starts in the initial state", Len(e.xs) = Len(e.ts) /\ VEq(e.xs[1], s.xinit)>>,
                     <<"each row follows from the one before", Len(e.xs) = Len(e.ts) /\ \A i \in 2..Len(e.ts) :
                         StepOk(s, e.method, RSub(e.ts[i], e.ts[i - 1]), e.xs[i - 1], e.xs[i], e.xds[i])>>,
                     <<"argument unchanged", e.unmodified>> >>)
    [] e.op = "solution" ->
         /\ UNCHANGED s
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
                  << <<"one row per time", Len(e.xs) = Len(e.ts) /\ Len(e.xds) = Len(e.ts)>>,
                     <<"starts in the initial state", Len(e.xs) = Len(e.ts) /\ (REq(e.ts[1], 0) => VClose(e.xs[1], s.xinit, Tol))>>,
                     <<"states are the solution", Len(e.xs) = Len(e.ts) /\ (Critical(s) =>
                        \A i \in 1..Len(e.ts) : SolutionNear(s, e.xs[i], e.ts[i]))>>,
                     <<"rates are those of the equation at the states", Len(e.xds) = Len(e.ts) /\ (Critical(s) =>
                        \A i \in 1..Len(e.ts) : RateOk(s, e.xs[i], e.xds[i])
                           \/ (AtEnd(s, Solution(s, e.ts[i])) /\ RateOk(s, Solution(s, e.ts[i]), e.xds[i])))>>,
                     <<"argument unchanged", e.unmodified>> >>)
    [] e.op = "plot" ->
         /\ UNCHANGED s
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
              LET k == N(s)
                  first == s.kind # "spring"
                  one == IF first THEN Lines(e.ts, e.xs) ELSE Lines(e.ts, Part(e.xs, 1, k))
                  two == IF first THEN Lines(e.ts, e.xds) ELSE Lines(e.ts, Part(e.xds, 1, k))
                  three == IF first THEN << >> ELSE Lines(e.ts, Rows(Part(e.xds, k + 1, 2 * k), RDiv(1, s.tau)))
              IN << <<"what was given is unchanged", e.unmodified>>,
                    <<"states and rates are drawn as they are",
                      Drawn(e.lines, one \o (IF e.axes = 1 THEN << >> ELSE two) \o (IF e.axes \in {1, 2} THEN << >> ELSE three))>> >>)
    [] e.op = "agree" ->      \* the last state of a fine integration, and the solution there
         /\ UNCHANGED s
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
                  << <<"integration agrees with the solution", Critical(s) /\ Kept => VClose(e.x, Solution(s, e.t), AgreeTol(e))>>,
                     <<"solution agrees with the integration", Critical(s) /\ Kept => VClose(e.xa, e.x, AgreeTol(e))>> >>)
    [] e.op = "converged" ->
         /\ UNCHANGED s
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
                  << <<"attractor is a fixed point", VClose(e.rate, Zeros(Len(s.xinit)), Tol)>>,
                     <<"converges to the attractor", Critical(s) => VClose(e.x, Attractor(s), RDec("1e-5"))>> >>)
    [] e.op = "phase" ->      \* long integration or solution of a time system
         /\ UNCHANGED s
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
            LET x == e.xs
                n == Len(x)
                step == RAdd(RDiv(e.dt, s.tau), Tol)
                sgn(v) == IF s.down THEN RSub(1, v) ELSE v      \* counts up from 0
            IN << <<"one state per time", n = Len(e.ts)>>,
                  <<"starts at the start", REq(sgn(x[1]), 0)>>,
                  <<"is monotone", \A i \in 2..n : RLe(sgn(x[i - 1]), sgn(x[i]))>>,
                  <<"stays in its range to within a step", \A i \in 1..n : RLe(0, sgn(x[i])) /\ RLt(sgn(x[i]), RAdd(1, step))>>,
                  <<"is linear until its end", \A i \in 1..n : RLe(e.ts[i], RSub(s.tau, e.dt)) => RNear(sgn(x[i]), RDiv(e.ts[i], s.tau), Tol, Tol)>>,
                  <<"has ended at tau", \A i \in 1..n : RLe(RAdd(s.tau, e.dt), e.ts[i]) => RLe(RSub(1, Tol), sgn(x[i]))>>,
                  <<"stays at its end", \A i \in 2..n : (RLe(1, sgn(x[i - 1]))) => REq(x[i], x[i - 1])>>,
                  <<"the solution ends exactly", e.exact => \A i \in 1..n : RLe(s.tau, e.ts[i]) => RNear(sgn(x[i]), 1, Zero, RDec("1e-15"))>> >>)
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<s, tr, pos>>
=============================================================================
