------------------------------ MODULE Updater ------------------------------
(***************************************************************************)
(* Reward-weighted averaging: from costs to weights, and from samples and  *)
(* weights to a new distribution.  (dmpbbo/bbo/updaters.py,                *)
(* DistributionGaussian, DistributionGaussianBounded)                      *)
(***************************************************************************)
EXTENDS Lin, FiniteSets

MinI(a, b) == IF a < b THEN a ELSE b

\* Unnormalized weight per rank (1 = lowest cost) for the rank-based methods.
RankWeight(method, mu, i) ==
  IF i > mu THEN Zero
  ELSE IF method = "CEM" THEN One
  ELSE RSub(RLog(RAdd(mu, Half)), RLog(i))

Normalized(w) == LET s == RSum(w) IN [i \in 1..Len(w) |-> RDiv(w[i], s)]

RankBased(method) == method \in {"CEM", "CMA-ES"}
RankWeights(method, elite, n) ==
  Normalized([i \in 1..n |-> RankWeight(method, MinI(elite, n), i)])

\* Continuous weights: PI-BB (also for unknown methods).
PiWeights(c, h) ==
  LET lo == RMinSeq(c)
      range == RSub(RMaxSeq(c), lo)
  IN Normalized([i \in 1..Len(c) |->
        IF REq(range, 0) THEN One ELSE RExp(RNeg(RDiv(RMul(h, RSub(c[i], lo)), range)))])

\* For sample i, how many have a lower cost, and how many have the same.
Lower(c, i) == Cardinality({j \in 1..Len(c) : RLt(c[j], c[i])})
Same(c, i) == Cardinality({j \in 1..Len(c) : REq(c[j], c[i])})

WTol == RDec("1e-10")
NearW(x, y) == RNear(x, y, WTol, RDec("1e-13"))

\* Are the weights w those of the method for costs c?  Samples of equal cost
\* occupy consecutive ranks; which of them gets which is not specified.
FollowsMethod(w, c, method, elite) ==
  IF RankBased(method)
  THEN LET r == RankWeights(method, elite, Len(c))
       IN \A i \in 1..Len(c) :
            LET lo == Lower(c, i)
                k == Same(c, i)
                ranks == (lo + 1)..(lo + k)
                tied == {j \in 1..Len(c) : REq(c[j], c[i])}
            IN IF k = 1 THEN NearW(w[i], r[lo + 1])
               ELSE \A q \in ranks :     \* as many weights of each size as ranks have it
                      Cardinality({j \in tied : NearW(w[j], r[q])}) = Cardinality({p \in ranks : NearW(r[p], r[q])})
  ELSE LET e == PiWeights(c, elite)
       IN \A i \in 1..Len(c) : NearW(w[i], e[i])

NonNegative(w) == \A i \in 1..Len(w) : RLe(0, w[i])
SumsToOne(w) == RNear(RSum(w), 1, Zero, RDec("1e-10"))
OrderRespecting(w, c) == \A i, j \in 1..Len(c) : RLt(c[i], c[j]) => RLe(RSub(w[j], RDec("1e-14")), w[i])

\* Clauses on the weights for costs c (the first component of each cost).
WeightClauses(w, c, method, elite) ==
  IF Len(w) # Len(c) THEN << <<"one weight per cost", FALSE>> >>
  ELSE << <<"weights are non-negative", NonNegative(w)>>,
          <<"weights sum to one", SumsToOne(w)>>,
          <<"lower cost never has lower weight", OrderRespecting(w, c)>>,
          <<"weights follow the method", FollowsMethod(w, c, method, elite)>> >>
WeightsOk(w, c, method, elite) == \A i \in 1..Len(WeightClauses(w, c, method, elite)) :
                                     WeightClauses(w, c, method, elite)[i][2]

----------------------------------------------------------------------------
(* The new distribution.  An updater u is a record with kind "mean",       *)
(* "decay" (with decay) or "adaptation" (with diag_only, lr, and max, min, *)
(* one number per dimension or << >>).                                     *)

MeanNew(samples, w) == LET s == RSum(w)
                       IN [d \in 1..Len(samples[1]) |-> RDiv(RDot(w, Col(samples, d)), s)]

WeightedCovar(samples, w, mean) ==
  LET eps == [k \in 1..Len(samples) |-> VSub(samples[k], mean)]
      n == Len(mean)
  IN [i \in 1..n |-> [j \in 1..n |->
        RSum([k \in 1..Len(samples) |-> RMul(w[k], RMul(eps[k][i], eps[k][j]))])]]

\* A limit is one number per dimension, or << >>: no limit.
RMinOf(x, y) == RMin(x, y)
RMaxOf(x, y) == RMax(x, y)
LimitDiag(c, limit, F(_, _)) ==
  IF limit = << >> THEN c
  ELSE [i \in 1..Len(c) |-> [j \in 1..Len(c) |->
          IF i = j THEN F(c[i][i], RMul(limit[i], limit[i])) ELSE c[i][j]]]

Adapted(u, covar, c1) ==
  LET n == Len(covar)
      c2 == IF u.diag_only THEN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN c1[i][j] ELSE Zero]] ELSE c1
      c3 == MAdd(MScale(RSub(1, u.lr), covar), MScale(u.lr, c2))
      c4 == LimitDiag(c3, u.max, RMinOf)
  IN LimitDiag(c4, u.min, RMaxOf)

CovarNew(u, mean, covar, samples, w) ==
  CASE u.kind = "mean" -> covar
    [] u.kind = "decay" -> MScale(RMul(u.decay, u.decay), covar)
    [] u.kind = "adaptation" -> Adapted(u, covar, WeightedCovar(samples, w, mean))

\* Size of the numbers involved, for comparisons.
MatScale(m) == RMaxSeq([i \in 1..Len(m) |-> RMaxSeq([j \in 1..Len(m[i]) |-> RAbs(m[i][j])])])
MeanClose(a, b, samples) ==
  LET s == RMul(RDec("1e-9"), RAdd(MatScale(samples), RDec("1e-12"))) IN VNear(a, b, Zero, s)
CovarClose(a, b, mean, samples) ==
  LET m == RAdd(MatScale(samples), RMaxSeq([i \in 1..Len(mean) |-> RAbs(mean[i])]))
      s == RAdd(RMul(RDec("1e-10"), RMul(m, m)), RDec("1e-14"))
  IN MNear(a, b, RDec("1e-9"), s)

UpdateClauses(u, old, samples, c, w, new) ==
  WeightClauses(w, c, u.method, u.elite) \o
  << <<"mean is the weighted average", Len(w) = Len(samples) /\ MeanClose(new.mean, MeanNew(samples, w), samples)>>,
     <<"covariance is the documented update",
       Len(w) = Len(samples)
       /\ CovarClose(new.covar, CovarNew(u, old.mean, old.covar, samples, w), old.mean, samples)>>,
     <<"kind and bounds are kept", new.kind = old.kind /\ new.lower = old.lower /\ new.upper = old.upper>> >>
=============================================================================
