------------------------------- MODULE Optim -------------------------------
(***************************************************************************)
(* An optimization run: sampling, evaluating, updating, recording.         *)
(* (dmpbbo/bbo/run_optimization.py, bbo_of_dmps/run_optimization_task.py)  *)
(*                                                                         *)
(* dist     the current distribution                                       *)
(* drawn    the samples drawn in this update (<< >>: not yet)              *)
(* evald    the evaluations made in this update: <<point, cost>>           *)
(* hist     what was done in each update so far                            *)
(*                                                                         *)
(* The order of evaluations within an update is left open.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Mean(_)         \* mean of a distribution
VARIABLES dist, drawn, evald, hist
ovars == <<dist, drawn, evald, hist>>

OInit(d0) == dist = d0 /\ drawn = << >> /\ evald = << >> /\ hist = << >>

Count(P(_), n) == Cardinality({i \in 1..n : P(i)})
Times(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* How often x has to be evaluated in this update: as a sample and as the mean.
Due(x) == Times(x, drawn) + IF x = Mean(dist) THEN 1 ELSE 0
Done(x) == Cardinality({i \in 1..Len(evald) : evald[i][1] = x})

DrawOk(d, s, m) == d = dist /\ drawn = << >> /\ Len(s) = m
Draw(s) == drawn' = s /\ UNCHANGED <<dist, evald, hist>>

\* The mean may be evaluated before or after the samples are drawn.
EvaluateOk(x) == Done(x) < Due(x)
Evaluate(x, c) == evald' = Append(evald, <<x, c>>) /\ UNCHANGED <<dist, drawn, hist>>

AllEvaluated == /\ Len(evald) = Len(drawn) + 1
                /\ \A i \in 1..Len(drawn) : Done(drawn[i]) = Due(drawn[i])
                /\ Done(Mean(dist)) = Due(Mean(dist))
CostOf(x, c) == \E i \in 1..Len(evald) : evald[i] = <<x, c>>
CostsBelong(s, cs) == Len(cs) = Len(s) /\ \A i \in 1..Len(s) : CostOf(s[i], cs[i])

UpdateOk(d, s, cs) == d = dist /\ s = drawn /\ CostsBelong(s, cs)
Update(cs, w, new) ==
  /\ hist' = Append(hist, [dist |-> dist, samples |-> drawn, costs |-> cs, weights |-> w, new |-> new,
                           evals |-> evald])
  /\ dist' = new /\ drawn' = << >> /\ evald' = << >>

\* What the record of an update may give as the evaluation of its mean.
EvalOf(h, x, c) == x = Mean(h.dist) /\ \E i \in 1..Len(h.evals) : h.evals[i] = <<x, c>>

----------------------------------------------------------------------------
Chain == /\ \A i \in 1..(Len(hist) - 1) : hist[i + 1].dist = hist[i].new
         /\ Len(hist) > 0 => dist = hist[Len(hist)].new
EachEvaluatedOnce == \A i \in 1..Len(hist) : Len(hist[i].evals) = Len(hist[i].samples) + 1
CostsOfOwnSample == \A i \in 1..Len(hist) : \A k \in 1..Len(hist[i].samples) :
    \E j \in 1..Len(hist[i].evals) : hist[i].evals[j] = <<hist[i].samples[k], hist[i].costs[k]>>
HistoryOnlyGrows == [][\A i \in 1..Len(hist) : i <= Len(hist') /\ hist'[i] = hist[i]]_ovars
=============================================================================
