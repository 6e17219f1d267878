----------------------------- MODULE OptimTrace -----------------------------
(* Recorded optimization runs against Optim.                               *)
EXTENDS Optim, Plot, TraceKit

VARIABLE rolls          \* rollouts of this update: <<point, cost variables>>
MeanOfRec(d) == d.mean

TraceInit == KitInit /\ OInit(T[tr].cfg.dist) /\ rolls = << >>

M == Cfg.m
Rolled(x, cv) == \E i \in 1..Len(rolls) : rolls[i] = <<x, cv>>

\* The learning curve of the history h.
SumRows(cs, k) == RSum([i \in 1..Len(cs) |-> cs[i][k]])
MeanRow(cs) == [k \in 1..Len(cs[1]) |-> RDiv(SumRows(cs, k), Len(cs))]
RowOk(row, h, i) ==
  IF h.evals # << >>
  THEN \E j \in 1..Len(h.evals) :
          /\ h.evals[j][1] = Mean(h.dist)
          /\ VNear(row, <<RInt((i - 1) * M)>> \o h.evals[j][2], RDec("1e-10"), RDec("1e-12"))
  ELSE VNear(row, <<RMul(RSub(i, Half), M)>> \o MeanRow(h.costs), RDec("1e-10"), RDec("1e-12"))

RecordClauses(e) ==
  << <<"number of updates", e.n_updates = Len(hist)>>,
     <<"every update is recorded", Len(e.rec) = Len(hist)>>,
     <<"distributions are those used", Len(e.rec) = Len(hist) =>
        \A i \in 1..Len(hist) : e.rec[i].dist = hist[i].dist /\ e.rec[i].new = hist[i].new>>,
     <<"samples and costs are those used", Len(e.rec) = Len(hist) =>
        \A i \in 1..Len(hist) : e.rec[i].samples = hist[i].samples /\ e.rec[i].costs = hist[i].costs
                                /\ e.rec[i].costs2 = hist[i].costs>>,
     <<"weights are those used", Len(e.rec) = Len(hist) =>
        \A i \in 1..Len(hist) : e.rec[i].weights = hist[i].weights>>,
     <<"evaluations are those made", Len(e.rec) = Len(hist) =>
        \A i \in 1..Len(hist) : IF hist[i].evals = << >> THEN e.rec[i].evalx = << >> /\ e.rec[i].evalc = << >>
                                ELSE EvalOf(hist[i], e.rec[i].evalx, e.rec[i].evalc)>>,
     <<"rollouts are those made", Len(e.rec) = Len(hist) =>
        \A i \in 1..Len(hist) : e.rec[i].rolls = << >> \/ e.rec[i].rolls =
           [k \in 1..Len(hist[i].samples) |-> <<hist[i].samples[k], hist[i].costs[k]>>]>>,
     <<"rows of the learning curve", Len(e.curve) = Len(hist) /\ \A i \in 1..Len(hist) : RowOk(e.curve[i], hist[i], i)>>,
     <<"costs before and after", Len(hist) > 0 =>
        /\ Len(e.before) > 0 /\ Len(e.after) > 0
        /\ RowOk(<<IF hist[1].evals # << >> THEN RInt(0) ELSE RMul(Half, M)>> \o e.before, hist[1], 1)
        /\ LET n == Len(hist)
           IN RowOk(<<IF hist[n].evals # << >> THEN RInt((n - 1) * M) ELSE RMul(RSub(n, Half), M)>> \o e.after, hist[n], n)>> >>

\* Is lambda the largest eigenvalue of the matrix a?
RECURSIVE Definite(_, _)
Definite(a, k) ==      \* are all pivots of a positive?
  IF k > Len(a) THEN TRUE
  ELSE RLt(Zero, a[k][k]) /\ Definite(Now([i \in 1..Len(a) |-> IF i <= k THEN a[i] ELSE VSub(a[i], VScale(RDiv(a[i][k], a[k][k]), a[k]))]), k + 1)
LargestEig(a, lambda) ==
  LET size == RAdd(RSum([i \in 1..Len(a) |-> RAbs(a[i][i])]), RDec("1e-300"))
      eps == RMul(RDec("1e-9"), size)
      shifted(x) == MSub(MScale(x, Eye(Len(a))), a)
  IN Definite(shifted(RAdd(lambda, eps)), 1) /\ ~Definite(shifted(RSub(lambda, eps)), 1)
Semidefinite(a, size) == /\ RLe(Zero, a[1][1]) /\ RLe(Zero, a[2][2])
                         /\ RLe(RMul(RDec("-1e-10"), RMul(size, size)), RSub(RMul(a[1][1], a[2][2]), RMul(a[1][2], a[2][1])))
\* One standard deviation of the first two dimensions of a distribution.
EllipseOk(l, d) ==
  LET c == l.dir[1]
      s == l.dir[2]
      a == RMul(l.half[1], l.half[1])
      b == RMul(l.half[2], l.half[2])
      cov == << <<RAdd(RMul(a, RMul(c, c)), RMul(b, RMul(s, s))), RMul(RSub(a, b), RMul(c, s))>>,
                <<RMul(RSub(a, b), RMul(c, s)), RAdd(RMul(a, RMul(s, s)), RMul(b, RMul(c, c)))>> >>
      size == RAdd(RAbs(d.covar[1][1]), RAbs(d.covar[2][2]))
  IN /\ VNear(l.center, SubSeq(d.mean, 1, 2), RDec("1e-12"), Zero)
     /\ \/ ~Semidefinite(d.covar, size)      \* (no distribution)
        \/ \A i \in 1..2 : \A j \in 1..2 : RNear(cov[i][j], d.covar[i][j], Zero, RMul(RDec("1e-9"), size))
Point(l, d) == Len(l.x) = 1 /\ REq(l.x[1], d.mean[1]) /\ REq(l.y[1], d.mean[2])
UpdateDrawn(e, i, k) ==      \* the k-th update that is drawn is that of hist[i]
  /\ Point(e.points[2 * k - 1], hist[i].dist) /\ Point(e.points[2 * k], hist[i].new)
  /\ EllipseOk(e.ellipses[2 * k - 1], hist[i].dist) /\ EllipseOk(e.ellipses[2 * k], hist[i].new)
Nothing == Len(Cfg.dist.mean) = 1
RECURSIVE AllFirst(_)
AllFirst(h) == IF h = << >> THEN << >> ELSE [k \in 1..Len(Head(h).costs) |-> Head(h).costs[k][1]] \o AllFirst(Tail(h))
Column(l, i) == [k \in 1..Len(l) |-> l[k].y[i]]
Totals(h) == IF h.evals # << >> THEN { h.evals[j][2][1] : j \in {k \in 1..Len(h.evals) : h.evals[k][1] = Mean(h.dist)} } ELSE { MeanRow(h.costs)[1] }
DrawnClauses(e) ==
  LET m == Len(hist) IN
  CASE e.what = "curve" ->
         << <<"the learning curve is drawn", \A k \in 1..Len(e.lines) : Len(e.lines[k].x) = m /\ Len(e.lines[k].y) = m>>,
            <<"costs of each evaluation are drawn", \A i \in 1..m : \A k \in 1..Len(e.lines) : Len(e.lines[k].x) = m /\ Len(e.lines[k].y) = m =>
                 RowOk(<<e.lines[k].x[i]>> \o Column(e.lines, i), hist[i], i)>>,
            <<"costs of all samples are drawn", LET all == AllFirst(hist) IN \E k \in 1..Len(e.all) : VEq(e.all[k].y, all)>>,
            <<"costs are labelled", Cfg.labels # << >> => e.labels = <<"total cost">> \o Cfg.labels>> >>
    [] e.what = "explo" ->
         << <<"the exploration curve is drawn", Len(e.lines) = 1 /\ Len(e.lines[1].x) = m /\ Len(e.lines[1].y) = m>>,
            <<"exploration is the root of the largest eigenvalue", \A i \in 1..m : Len(e.lines) = 1 /\ Len(e.lines[1].y) = m =>
                 /\ REq(e.lines[1].x[i], RInt((i - 1) * M))
                 /\ LargestEig(hist[i].dist.covar, RMul(e.lines[1].y[i], e.lines[1].y[i]))>> >>
    [] e.what = "updates" ->
         IF Nothing THEN << <<"nothing to draw", e.points = << >> /\ e.ellipses = << >> >> >>
         ELSE << <<"all updates are drawn", Len(e.points) = 2 * m /\ Len(e.ellipses) = 2 * m>>,
                 <<"the distributions before and after each update are drawn", Len(e.points) = 2 * m /\ Len(e.ellipses) = 2 * m =>
                     \A i \in 1..m : UpdateDrawn(e, i, i)>> >>
    [] e.what = "update" ->
         IF Nothing THEN << <<"nothing to draw", e.points = << >> /\ e.ellipses = << >> >> >>
         ELSE << <<"the distributions before and after the update are drawn", Len(e.points) = 2 /\ Len(e.ellipses) = 2 /\ UpdateDrawn(e, e.u, 1)>>,
                 <<"the samples are drawn", e.samples => \A k \in 1..Len(hist[e.u].samples) : \E i \in 1..Len(e.all) : \E j \in 1..Len(e.all[i]) :
                     VEq(e.all[i][j], SubSeq(hist[e.u].samples[k], 1, 2))>> >>
    [] e.what = "rollouts" ->
         LET k == Len(e.lines)      \* (at most 20 are drawn)
             rolloutOf(l, u) == Len(l.y) > 0 /\ VEq(SubSeq(l.y, 1, Len(l.y) - 1), Mean(hist[u].dist))
         IN << <<"the rollouts of the means are drawn", IF m <= 20 THEN k = m /\ \A i \in 1..m : rolloutOf(e.lines[i], i)
                   ELSE k > 10 /\ k <= 20 /\ rolloutOf(e.lines[1], 1) /\ \A i \in 1..k : \E u \in 1..m : rolloutOf(e.lines[i], u)>> >>
    [] e.what = "ratio" ->
         << <<"cost ratio is that of the last evaluation to the first", m = 0 \/ LET b == hist[1]  a == hist[m]
               IN \E x \in Totals(b) : \E y \in Totals(a) : RNear(RMul(e.ratio, x), y, RDec("1e-10"), Zero)>> >>
    [] OTHER -> << >>

Do(e) ==
  CASE e.op = "draw" ->
         /\ Judge(<< <<"draws the given number of samples, once, from the current distribution",
                       DrawOk(e.dist, e.s, M) /\ e.m = M>>,
                     <<"no update after the last", Len(hist) < Cfg.n>> >>)
         /\ Draw(e.s) /\ UNCHANGED rolls
    [] e.op = "rollout" ->
         /\ rolls' = Append(rolls, <<e.x, e.cv>>) /\ UNCHANGED ovars
         /\ Judge(<< <<"performs the rollout of the mean or of a sample, once",
                       e.x = Mean(dist) \/ \E i \in 1..Len(drawn) : drawn[i] = e.x>> >>)
    [] e.op = "evaluate" ->
         /\ Judge(<< <<"evaluates the mean and each sample once", EvaluateOk(e.x)>>,
                     <<"evaluates the rollout of this sample", Cfg.task => Rolled(e.x, e.cv)>> >>)
         /\ Evaluate(e.x, e.c) /\ UNCHANGED rolls
    [] e.op = "update" ->
         /\ Judge(<< <<"updates the current distribution with its samples", e.dist = dist /\ e.samples = drawn>>,
                     <<"costs belong to their samples", CostsBelong(drawn, e.costs)>>,
                     <<"mean and samples have all been evaluated before", AllEvaluated>> >>)
         /\ Update(e.costs, e.weights, e.new) /\ rolls' = << >>
    [] e.op = "manual" ->       \* an update that is recorded without a run
         /\ hist' = Append(hist, [dist |-> e.dist, samples |-> e.samples, costs |-> e.costs, weights |-> e.weights,
                                  new |-> e.new, evals |-> e.evals])
         /\ UNCHANGED <<dist, drawn, evald, rolls>>
    [] e.op = "finish" ->
         /\ UNCHANGED ovars /\ UNCHANGED rolls
         /\ Judge(<< <<"the run ends normally", e.out = "ok">>,
                     <<"performs exactly the given number of updates", Len(hist) = Cfg.n /\ drawn = << >> >>,
                     <<"given distribution unchanged", e.initial = Cfg.dist>> >>)
    [] e.op = "drawn" ->
         /\ UNCHANGED ovars /\ UNCHANGED rolls
         /\ Judge(IF e.out # "ok" THEN << <<"can be drawn", FALSE>> >> ELSE DrawnClauses(e))
    [] e.op = "record" ->
         /\ UNCHANGED ovars /\ UNCHANGED rolls
         /\ Judge(IF e.out # "ok" THEN << <<"the session can be read", FALSE>> >> ELSE RecordClauses(e))
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<ovars, rolls, tr, pos>>
=============================================================================
