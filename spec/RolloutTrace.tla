---------------------------- MODULE RolloutTrace ----------------------------
(* Recorded rollouts of a task solver for DMPs                             *)
(* (dmpbbo/bbo_of_dmps/TaskSolverDmp.py), and calls on the DMP with which  *)
(* it was constructed, against Dmp and SolverMC.                           *)
EXTENDS DmpTrace

VARIABLE solver          \* its DMP q, with its selection, time span and time step
RollInit == TraceInit /\ solver = [none |-> TRUE]

RollTol == RDec("1e-8")
Gl(q, t) == IF Goal0(q) THEN Solution(q.goal, t) ELSE q.yattr
Dm(q, t) == IF Damp0(q) THEN Solution(q.damp, t) ELSE q.d
\* A row of a rollout of q: time, positions, velocities, accelerations.
RowT(r) == r[1]
RowY(q, r) == SubSeq(r, 2, Dims(q) + 1)
RowYd(q, r) == SubSeq(r, Dims(q) + 2, 2 * Dims(q) + 1)
RowYdd(q, r) == SubSeq(r, 2 * Dims(q) + 2, 3 * Dims(q) + 1)
AccelerationOk(q, r) ==
  LET t == RowT(r)
      ph == Solution(q.phase, t)
      ga == Solution(q.gating, t)
      f == Forcing(q, ph, ga)
      terms == ZTerms(q, RowY(q, r), VScale(q.tau, RowYd(q, r)), SpringGoal(q, Gl(q, t)), SpringDamp(q, Dm(q, t)), f)
      k == Dims(q)
  IN \A i \in 1..k :
       LET fsize == RDiv(RMul(RMul(RAbs(ga[1]), FaSizeOf(q, i, ph)), RAbs(Scales(q)[i])), q.tau)
           spring == RDiv(RMul(q.k[i], RAdd(RAbs(RowY(q, r)[i]), RAbs(SpringGoal(q, Gl(q, t))[i]))), RMul(q.m[i], q.tau))
       IN RNear(RMul(q.tau, RowYdd(q, r)[i]), RSum(terms[i]), Zero,
                RMul(RollTol, RAdd(RAdd(One, fsize), RAdd(spring, RAbs(terms[i][2])))))
EulerOk(q, r, s) ==
  LET dt == RSub(RowT(s), RowT(r))
      ok(a, b, c) == RNear(c, RAdd(a, RMul(dt, b)), Zero, RMul(Tol, RAdd(One, RAdd(RAbs(a), RAbs(RMul(dt, b))))))
  IN \A i \in 1..Dims(q) : ok(RowY(q, r)[i], RowYd(q, r)[i], RowY(q, s)[i]) /\ ok(RowYd(q, r)[i], RowYdd(q, r)[i], RowYd(q, s)[i])
\* As many steps as fit into the time span (a whole number of them also if rounding gives a little less).
RowsOk(e) == LET steps == RDiv(solver.span, solver.dt)
             IN RLe(RSub(Len(e.rows) - 1, steps), RDec("1e-8")) /\ RLe(RSub(steps, Len(e.rows)), RDec("-1e-10"))
Columns(q) == <<"t">> \o [i \in 1..Dims(q) |-> "y" \o ToString(i - 1)] \o [i \in 1..Dims(q) |-> "yd" \o ToString(i - 1)]
              \o [i \in 1..Dims(q) |-> "ydd" \o ToString(i - 1)]
MovementClauses(q, e) ==
  IF e.out # "ok" THEN << <<"accepted", FALSE>> >>
  ELSE LET m == Len(e.rows) IN
  << <<"one row per time step of the time span", RowsOk(e)>>,
     <<"rows hold time, positions, velocities and accelerations", \A i \in 1..m : Len(e.rows[i]) = 1 + 3 * Dims(q)>>,
     <<"a table or matrix, as asked for", e.table = solver.table /\ (e.table => e.columns = Columns(q))>>,
     <<"argument unchanged", e.unmodified>> >>
  \o (IF m < 2 \/ ~RowsOk(e) \/ \E i \in 1..m : Len(e.rows[i]) # 1 + 3 * Dims(q) THEN << >> ELSE
  << <<"times are evenly spaced over the time span", \A i \in 1..m : RNear(RowT(e.rows[i]), RDiv(RMul(solver.span, i - 1), m - 1), Tol, Tol)>>,
     <<"starts at rest in the initial state", VEq(RowY(q, e.rows[1]), q.yinit) /\ VEq(RowYd(q, e.rows[1]), Zeros(Dims(q)))>>,
     <<"accelerations are those of the DMP with these parameters", \A i \in 1..m : AccelerationOk(q, e.rows[i])>>,
     <<"positions and velocities follow from the row before", \A i \in 2..m : EulerOk(q, e.rows[i - 1], e.rows[i])>> >>)

DoRoll(e) ==
  CASE e.op = "solver" ->
         /\ UNCHANGED <<p, sel, last>> /\ Judged(e, << >>)
         /\ solver' = [q |-> p, sel |-> sel, span |-> Now(RMul(p.tau, e.factor)), dt |-> e.dt, table |-> e.table]
    [] e.op = "rollout" ->
         LET good == Len(e.v) = Len(DmpParams(solver.q, solver.sel))
             q == IF good THEN Now(SetDmpParams(solver.q, solver.sel, e.v)) ELSE solver.q
         IN /\ UNCHANGED <<p, sel, last>>
            /\ solver' = [solver EXCEPT !.q = q]
            /\ Judge(IF ~good THEN << <<"accepts vectors of the right size only", e.out # "ok">> >> ELSE MovementClauses(q, e))
    [] e.op = "rollout of" ->
         UNCHANGED <<p, sel, last, solver>> /\ Judge(MovementClauses(p, e))
    [] OTHER -> Do(e) /\ UNCHANGED solver
RollNext == KitStep /\ DoRoll(Event)
RollSpec == RollInit /\ [][RollNext]_<<p, sel, last, solver, tr, pos>>
=============================================================================
