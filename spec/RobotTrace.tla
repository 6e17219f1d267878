----------------------------- MODULE RobotTrace -----------------------------
(* Recorded optimizations of movements of the robot of demos/robot, from   *)
(* the demonstration on: the DMPs and trajectories that the robot is given *)
(* as files, what it writes about their execution, the costs, and the next *)
(* distribution, against Dmp, Updater and Robot.                           *)
EXTENDS DmpTrace, Updater, Robot

VARIABLES walk,      \* last integration: times, states and rates
          batch      \* last batch: update, distribution, samples, DMPs' parameters
RobotInit == TraceInit /\ walk = [ts |-> << >>] /\ batch = [u |-> -1]

M == Cfg.count
\* Numbers in the robot's files have a limited number of decimals.
FileTol == RDec("1e-5")
NearF(a, b) == RNear(a, b, FileTol, FileTol)
VNearF(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearF(a[i], b[i])

\* What a row says of the ball (in C++, with velocity, acceleration and whether it is held; in Python, with the position only).
BallIs(row, s) ==
  IF Len(row) = 14
  THEN VNearF(SubSeq(row, 8, 9), s.y) /\ VNearF(SubSeq(row, 10, 11), s.v) /\ VNearF(SubSeq(row, 12, 13), s.a)
       /\ REq(row[14], IF s.held THEN One ELSE Zero)
  ELSE VNearF(SubSeq(row, 8, 9), s.y)
\* The states that the rows up to i allow (computed from the hand's movement, not from the rows).
RECURSIVE BallStates(_, _, _, _, _)
BallStates(rows, dts, floor, i, S) ==
  IF i > Len(rows) \/ S = {} THEN S
  ELSE LET r == rows[i]
           next == UNION { After(s, dts[i], SubSeq(r, 2, 3), SubSeq(r, 4, 5), SubSeq(r, 6, 7), floor) : s \in S }
       IN BallStates(rows, dts, floor, i + 1, Now({ s \in next : BallIs(r, s) }))
BallOk(rows, dts, start, floor) == BallStates(rows, dts, floor, 1, {start}) # {}

\* Movement of the hand, given positions, velocities and accelerations.
HandOk(rows, want) ==
  \A size \in { Now([k \in 1..3 |-> RMul(FileTol, RAdd(One, RMaxSeq([i \in 1..Len(want) |-> RMaxSeq([j \in 1..2 |-> RAbs(want[i][k][j])])])))]) } :
     \A i \in 1..Len(rows) : \A k \in 1..3 : \A j \in 1..2 : RNear(rows[i][2 * k - 1 + j], want[i][k][j], Zero, size[k])
WalkPVA == Now([i \in 1..Len(walk.ts) |-> PosVelAcc(p, walk.xs[i], walk.xds[i])])
Wide(rows, w) == \A i \in 1..Len(rows) : Len(rows[i]) = w

DoRobot(e) ==
  CASE e.op = "integrate" ->
         Do(e) /\ walk' = (IF e.out = "ok" THEN [ts |-> e.ts, xs |-> e.xs, xds |-> e.xds] ELSE [ts |-> << >>]) /\ UNCHANGED batch
    [] e.op = "perform" ->       \* by robotExecuteDmp
         /\ UNCHANGED <<p, sel, last, walk, batch>>
         /\ Judged(e, LET m == Len(e.rows)
                          steps == RDiv(RMul(RDec("1.5"), p.tau), e.dt)
                      IN << <<"as many time steps as in 1.5 times the duration", RLe(RSub(m, steps), RDec("1e-8")) /\ RLt(RSub(steps, m), RDec("1.00000001"))>>,
                            <<"rows hold time, hand and ball", Wide(e.rows, 14)>> >>
                      \o (IF ~Wide(e.rows, 14) \/ m > Len(walk.ts) \/ m = 0 THEN << >> ELSE
                      << <<"time goes on by the time step", \A i \in 1..m : NearF(e.rows[i][1], RMul(e.dt, i))>>,
                         <<"the hand moves as the DMP with the parameters of the sample", \A w \in {WalkPVA} : HandOk(e.rows, w)>>,
                         <<"the ball is held, thrown, and stays where it lands", BallOk(e.rows, [i \in 1..m |-> e.dt], RobotStart, RDec("-0.3"))>> >>))
    [] e.op = "simulate" ->      \* by run_python_simulation
         /\ UNCHANGED <<p, sel, last, walk, batch>>
         /\ Judged(e, LET m == Len(e.rows)
                          steps == RDiv(RMul(RDec("1.5"), p.tau), e.dt)
                          first == [RobotStart EXCEPT !.y = SubSeq(e.rows[1], 2, 3)]
                          \* the ball is held in the first row, and the hand's time is that of the row
                          rows == SubSeq(e.rows, 2, m)
                          late == [first EXCEPT !.t = e.dt]
                      IN << <<"as many time steps as in 1.5 times the duration", RLe(RSub(m, steps), RDec("1.00000001")) /\ RLe(RSub(steps, m), RDec("1e-8"))>>,
                            <<"rows hold time, hand and ball", Wide(e.rows, 9)>> >>
                      \o (IF ~Wide(e.rows, 9) \/ m > Len(walk.ts) \/ m < 2 THEN << >> ELSE
                      << <<"time goes on by the time step", \A i \in 1..m : NearF(e.rows[i][1], RMul(e.dt, i - 1))>>,
                         <<"the hand moves as the DMP with the parameters of the sample", \A w \in {WalkPVA} : HandOk(e.rows, w)>>,
                         <<"the ball starts in the hand", VNearF(SubSeq(e.rows[1], 8, 9), SubSeq(e.rows[1], 2, 3))>>,
                         <<"the ball is held, thrown, and stays where it lands", BallOk(rows, [i \in 1..(m - 1) |-> e.dt], late, e.floor)>> >>))
    [] e.op = "perform trajectory" ->      \* by robotExecuteTrajectory
         /\ UNCHANGED <<p, sel, last, walk, batch>>
         /\ Judged(e, LET m == Len(e.rows)
                          d(i) == RSub(e.ts[i], e.ts[i - 1])
                          dts == [i \in 1..m |-> IF i = 1 THEN d(2) ELSE d(i)]
                      IN << <<"one row per row of the trajectory", m = Len(e.ts)>>, <<"rows hold time, hand and ball", Wide(e.rows, 14)>> >>
                      \o (IF ~Wide(e.rows, 14) \/ m # Len(e.ts) THEN << >> ELSE
                      << <<"time goes on as in the trajectory", \A i \in 1..m : NearF(RSub(e.rows[i][1], dts[1]), RSub(e.ts[i], e.ts[1]))>>,
                         <<"the hand moves as in the trajectory", HandOk(e.rows, [i \in 1..m |-> <<e.ys[i], e.yds[i], e.ydds[i]>>])>>,
                         <<"the ball is held, thrown, and stays where it lands", BallOk(e.rows, dts, RobotStart, RDec("-0.3"))>> >>))
    [] e.op = "cost" ->
         /\ UNCHANGED <<p, sel, last, walk, batch>>
         /\ Judged(e, << <<"costs are those of the rollout", Wide(e.rows, Len(e.rows[1]))
                           /\ VNear(e.cost, ThrowCost(e.task, SubSeq(e.rows[Len(e.rows)], 8, 9), [i \in 1..Len(e.rows) |-> SubSeq(e.rows[i], 6, 7)]),
                                    RDec("1e-9"), RDec("1e-12"))>>,
                         <<"the rollout is that which the robot wrote", e.asread>> >>)
    [] e.op = "batch" ->         \* the samples of an update, and the parameters of the DMPs in the files
         /\ UNCHANGED <<p, sel, last, walk>>
         /\ batch' = [u |-> e.u, dist |-> e.dist, samples |-> e.samples]
         /\ Judged(e, << <<"updates follow each other", e.u = batch.u + 1>>,
                         <<"number of samples", Len(e.samples) = M /\ Len(e.params) = M + 1>>,
                         <<"DMP i has the parameters of sample i", Len(e.params) = M + 1 /\ Len(e.samples) = M /\ \A i \in 1..M : VEq(e.params[i], e.samples[i])>>,
                         <<"the evaluation DMP has the mean", Len(e.params) = M + 1 /\ VEq(e.params[M + 1], e.dist.mean)>>,
                         <<"the first distribution is the initial one", e.u = 0 => e.dist = Cfg.dist>> >>)
    [] e.op = "update" ->
         /\ UNCHANGED <<p, sel, last, walk, batch>>
         /\ Judged(e, << <<"every rollout has its costs", Len(e.costs) = M>>,
                         <<"the new distribution is the next one", e.new = e.next>>,
                         <<"the evaluations are in the learning curve", VNear(e.curve, <<RInt(batch.u * M)>> \o e.eval, RDec("1e-11"), RDec("1e-13"))>> >>
                      \o UpdateClauses(Cfg.updater, batch.dist, batch.samples, [i \in 1..Len(e.costs) |-> e.costs[i][1]], e.weights, e.new))
    [] e.op = "explore" ->       \* step 3: samples around the parameters of the DMP, as DMPs in files
         /\ UNCHANGED <<p, sel, last, walk, batch>>
         /\ Judged(e, LET n0 == Len(DmpParams(p, sel)) IN
                   << <<"the mean is the DMP that was trained", VEq(e.dist.mean, DmpParams(p, sel))>>,
                      <<"exploration is of the size asked for", \A i, j \in 1..n0 : RNear(e.dist.covar[i][j], IF i = j THEN RMul(e.sigma, e.sigma) ELSE Zero, Tol, Tol)>>,
                      <<"as many samples as asked for, all different", e.count = e.asked /\ e.different>> >>)
    [] e.op = "script" -> UNCHANGED <<p, sel, last, walk, batch>> /\ Judge(<< <<"the script ends well", e.out = "ok">> >>)
    [] OTHER -> Do(e) /\ UNCHANGED <<walk, batch>>
RobotNext == KitStep /\ DoRobot(Event)
RobotSpec == RobotInit /\ [][RobotNext]_<<p, sel, last, walk, batch, tr, pos>>
=============================================================================
