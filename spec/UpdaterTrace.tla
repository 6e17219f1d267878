---------------------------- MODULE UpdaterTrace ----------------------------
(* Recorded calls of costs_to_weights and of updaters against Updater.     *)
EXTENDS Updater, TraceKit

\* dist: the distribution after the last update of a chain.
VARIABLE dist

TraceInit == KitInit /\ dist = T[tr].cfg.dist

First(costs) == [i \in 1..Len(costs) |-> costs[i][1]]

Do(e) ==
  CASE e.op = "weights" ->
         /\ UNCHANGED dist
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >>
                  ELSE WeightClauses(e.w, First(e.costs), e.method, e.elite)
                       \o << <<"one-dimensional array of numbers", e.ndim = 1>>,
                             <<"costs are not modified", e.unmodified>> >>)
    [] e.op = "update" ->
         IF e.out # "ok" THEN UNCHANGED dist /\ Judge(<< <<"accepted", FALSE>> >>)
         ELSE /\ dist' = e.new
              /\ Judge(UpdateClauses(e.updater, e.old, e.samples, First(e.costs), e.w, e.new)
                       \o << <<"chain", dist = e.old>>,
                             <<"arguments are not modified", e.unmodified>>,
                             <<"mean and covariance have their shapes", e.shapes>>,
                             <<"shares nothing with the arguments", e.independent>> >>)
    [] e.op = "construct" ->
         /\ UNCHANGED dist
         /\ Judge(<< <<"learning rate accepted iff within [0, 1]",
                       (e.out = "ok") = (RLe(0, e.lr) /\ RLe(e.lr, 1))>> >>)
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<dist, tr, pos>>
=============================================================================
