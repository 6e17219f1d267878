--------------------------- MODULE SamplingTrace ---------------------------
(***************************************************************************)
(* Sampling from (bounded) Gaussian distributions.  The specification of   *)
(* the state machine has one variable, the state of the random number      *)
(* generator, of which only equality is observed: drawn maps each (seed,   *)
(* number of draws) to the samples drawn there.                            *)
(***************************************************************************)
EXTENDS Updater, TraceKit

VARIABLE drawn          \* <<seed, count>> -> unbounded samples

TraceInit == KitInit /\ drawn = << >>

Clip(x, lo, up, d) ==
  LET a == IF lo = << >> THEN x ELSE RMax(x, lo[d])
  IN IF up = << >> THEN a ELSE RMin(a, up[d])

Within(s, d) == \A k \in 1..Len(s) : \A i \in 1..Len(s[k]) :
                   /\ d.lower = << >> \/ RLe(d.lower[i], s[k][i])
                   /\ d.upper = << >> \/ RLe(s[k][i], d.upper[i])
ClippedOf(s, raw, d) == /\ Len(s) = Len(raw)
                        /\ \A k \in 1..Len(s) : VEq(s[k], [i \in 1..Len(raw[k]) |-> Clip(raw[k][i], d.lower, d.upper, i)])

\* Directions (dimensions) without variance: exactly the mean.
Degenerate(d) == {i \in 1..Len(d.mean) : REq(d.covar[i][i], 0)}
AtMean(s, d) == \A k \in 1..Len(s) : \A i \in Degenerate(d) :
                   RNear(s[k][i], d.mean[i], RDec("1e-6"), RDec("1e-6"))

\* Statistics of many samples: z-scores of the means and of the covariances.
MeanOf(s, i) == RDiv(RSum(Col(s, i)), Len(s))
\* m: means of N samples, c: their second moments about the mean of the distribution.
MomentsOk(m, c, N, d) ==
  LET n == Len(d.mean)
  IN /\ \A i \in 1..n : RLe(RAbs(RSub(m[i], d.mean[i])),
                            RAdd(RMul(8, RSqrt(RDiv(d.covar[i][i], N))), RDec("1e-6")))
     /\ \A i, j \in 1..n : RLe(RAbs(RSub(c[i][j], d.covar[i][j])),
                               RAdd(RMul(8, RSqrt(RDiv(RAdd(RMul(d.covar[i][i], d.covar[j][j]),
                                                           RMul(d.covar[i][j], d.covar[i][j])), N))), RDec("1e-6")))
StatsOk(s, d) ==
  LET n == Len(d.mean)
      N == Len(s)
      m == [i \in 1..n |-> MeanOf(s, i)]
      dev == [k \in 1..N |-> VSub(s[k], d.mean)]
      c == [i \in 1..n |-> [j \in 1..n |-> RDiv(RDot(Col(dev, i), Col(dev, j)), N)]]
  IN MomentsOk(m, c, N, d)

Do(e) ==
  CASE e.op = "sample" ->
       IF e.out # "ok" THEN UNCHANGED drawn /\ Judge(<< <<"accepted", FALSE>> >>)
       ELSE LET at == <<e.seed, e.count>>
                key == ToString(at)
            IN /\ drawn' = IF e.dist.kind = "DistributionGaussian" THEN (key :> e.s) @@ drawn ELSE drawn
               /\ Judge(<< <<"one row per sample, one column per dimension", e.sh = <<e.n, Len(e.dist.mean)>> >>,
                           <<"distribution unchanged", e.unmodified>>,
                           <<"within the bounds", Within(e.s, e.dist)>>,
                           <<"same samples for the same generator state, clipped to the bounds",
                             key \in DOMAIN drawn =>
                               ClippedOf(e.s, drawn[key], e.dist)>>,
                           <<"the mean where there is no variance",
                             e.dist.kind = "DistributionGaussian" => AtMean(e.s, e.dist)>>,
                           <<"statistics of the distribution",
                             (e.dist.kind = "DistributionGaussian" /\ e.n >= 500) => StatsOk(e.s, e.dist)>> >>)
    [] e.op = "moments" ->      \* of more samples than are recorded
       /\ UNCHANGED drawn
       /\ Judge(<< <<"accepted", e.out = "ok">>, <<"one row per sample, one column per dimension", e.out = "ok" => e.sh = <<e.n, Len(e.dist.mean)>> >>,
                   <<"statistics of the distribution", e.out = "ok" => MomentsOk(e.m, e.c, e.n, e.dist)>> >>)
    [] e.op = "construct" ->
       /\ UNCHANGED drawn
       /\ Judge(<< <<"accepted iff sizes agree", (e.out = "ok") = (e.nmean = e.ncovar)>> >>)
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<drawn, tr, pos>>
=============================================================================
