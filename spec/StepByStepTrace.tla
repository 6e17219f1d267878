--------------------------- MODULE StepByStepTrace ---------------------------
(* Recorded step-by-step optimizations, with kills, against StepByStep and  *)
(* Updater: the functions that are terms in StepByStep are computed here.   *)
EXTENDS Updater, TraceKit

VARIABLES done,      \* number of completed steps (the first is the preparation)
          past       \* what the directory held after the last completed step
svars == <<done, past>>

TraceInit == KitInit /\ done = 0 /\ past = << >>

M == Cfg.m
\* The cost of the harness's task.
CostOf(cv, p) == <<RAdd(RSum(cv), RDot(p, p)), RSum(cv), RDot(p, p)>>

First(costs) == [i \in 1..Len(costs) |-> costs[i][1]]

\* x: an update as found in the directory.  Labels are 1..M and M + 1, the evaluation.
BatchClauses(x) ==
  << <<"number of samples", Len(x.samples) = M>>,
     <<"every sample has its DMP", Len(x.params) = M + 1 /\ Len(x.cpp) = M + 1>>,
     <<"DMP i has the parameters of sample i", Len(x.params) = M + 1 /\ Len(x.samples) = M
        /\ \A i \in 1..M : VEq(x.params[i], x.samples[i])>>,
     <<"the evaluation DMP has the mean", Len(x.params) = M + 1 /\ VEq(x.params[M + 1], x.dist.mean)>>,
     <<"DMPs for C++ are the same", x.cpp = x.params>>,
     <<"trajectories are those of the DMPs", x.trajs = x.expected_trajs>> >>
Old(x) == [mean |-> x.dist.mean, covar |-> x.dist.covar, kind |-> x.dist.kind, lower |-> x.dist.lower, upper |-> x.dist.upper]
UpdateDone(x, next) ==
  IF Len(x.costs) # M + 1 \/ Len(x.cvs) # M + 1 \/ Len(x.samples) # M \/ Len(x.params) # M + 1
  THEN << <<"every rollout has its costs", FALSE>> >>
  ELSE << <<"costs are those of the rollout's cost variables",
             \A i \in 1..(M + 1) : VNear(x.costs[i], CostOf(x.cvs[i], x.params[i]), RDec("1e-11"), RDec("1e-13"))>>,
          <<"the distribution of the next update is the new one", next.dist = x.new>> >>
       \o UpdateClauses(Cfg.updater, Old(x), x.samples, First(SubSeq(x.costs, 1, M)), x.weights, x.new)

RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN << >> ELSE ss[1] \o Cat(Tail(ss))

LookClauses(e) ==
  LET s == e.updates
  IN << <<"one update per completed step", Len(s) = done>>,
        <<"number of updates performed", e.n_updates = done - 1>>,
        <<"learning curve has the evaluations", Len(s) = done => Len(e.curve) = done - 1 /\ \A i \in 1..Len(e.curve) :
             VNear(e.curve[i], <<RInt((i - 1) * M)>> \o s[i].costs[M + 1], RDec("1e-11"), RDec("1e-13"))>>,
        <<"initial distribution", Len(s) > 0 => s[1].dist = Cfg.dist>>,
        <<"earlier updates are kept", Len(s) >= Len(past) =>
            \A i \in 1..Len(past) : LET a == past[i] b == s[i] IN
               /\ a.dist = b.dist /\ a.samples = b.samples /\ a.params = b.params
               /\ (i < Len(past) => a.costs = b.costs /\ a.weights = b.weights /\ a.new = b.new /\ a.cvs = b.cvs)>> >>
     \o Cat([i \in 1..Len(s) |-> BatchClauses(s[i])])
     \o (IF Len(s) = done THEN Cat([i \in 1..(done - 1) |-> UpdateDone(s[i], s[i + 1])]) ELSE << >>)

Do(e) ==
  CASE e.op = "step" ->
         /\ UNCHANGED past
         /\ done' = IF e.out = "ok" THEN done + 1 ELSE done
         /\ Judge(<< <<"a step that is not killed succeeds", e.out = (IF e.killed THEN "killed" ELSE "ok")>> >>)
    [] e.op = "roll" -> UNCHANGED <<done, past>>
    [] e.op = "look" ->
         /\ UNCHANGED done
         /\ IF e.out # "ok" THEN UNCHANGED past /\ Judge(<< <<"the directory can be read", FALSE>> >>)
            ELSE past' = e.updates /\ Judge(LookClauses(e))
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<svars, tr, pos>>
=============================================================================
