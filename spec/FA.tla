--------------------------------- MODULE FA ---------------------------------
(***************************************************************************)
(* Function approximators: their models, how they predict, what training   *)
(* makes them, and their parameter vectors.                                *)
(* (dmpbbo/functionapproximators, src/functionapproximators)               *)
(*                                                                         *)
(* A model m is a record with the field kind and                           *)
(*   wls   slope (a vector), offset (a vector of no or one number)         *)
(*   rbfn  centers, widths (one row per basis function), weights (vector)  *)
(*   lwr   centers, widths, slopes (one row per basis function), offsets   *)
(*   gpr   inputs, lengths (one row per training sample), gram_inv_targets *)
(*         (vector), maxcov                                                *)
(* and NoModel is that of an untrained approximator.                       *)
(***************************************************************************)
EXTENDS Lin

NoModel == [kind |-> "none"]

----------------------------------------------------------------------------
(* Basis functions.                                                        *)
SqDist(x, c, w) == RSum([i \in 1..Len(x) |-> LET u == RDiv(RSub(x[i], c[i]), w[i]) IN RMul(u, u)])
Act(x, c, w) == RExp(RNeg(RMul(Half, SqDist(x, c, w))))
Acts(x, cs, ws) == Now([b \in 1..Len(cs) |-> Act(x, cs[b], ws[b])])
NormActs(x, cs, ws) ==
  IF Len(cs) = 1 THEN <<One>>
  ELSE LET a == Acts(x, cs, ws)
           s == RSum(a)
       IN Now([b \in 1..Len(cs) |-> RDiv(a[b], s)])
\* Activations that doubles can no longer tell from zero.
Dim(x, cs, ws) == Len(cs) > 1 /\ RLt(RMaxSeq(Acts(x, cs, ws)), RDec("1e-290"))

(* Predictions: the terms that a prediction is the sum of.                 *)
Terms(m, x) ==
  CASE m.kind = "wls" -> VMul(m.slope, x) \o m.offset
    [] m.kind = "rbfn" -> VMul(Acts(x, m.centers, m.widths), m.weights)
    [] m.kind = "lwr" ->
         LET a == NormActs(x, m.centers, m.widths)
         IN Now([b \in 1..Len(a) |-> RMul(a[b], RAdd(RDot(m.slopes[b], x), m.offsets[b]))])
    [] m.kind = "gpr" ->
         VScale(m.maxcov, VMul(Acts(x, m.inputs, m.lengths), m.gram_inv_targets))
Predict(m, x) == RSum(Terms(m, x))
\* Far away from all basis functions the lines of an LWR are mixed in some way.
LineAt(m, x, b) == RAdd(RDot(m.slopes[b], x), m.offsets[b])
LinesAt(m, x) == Now([b \in 1..Len(m.offsets) |-> LineAt(m, x, b)])
\* The sizes of what a prediction is the sum of.
LineSize(slope, x, offset) == RAdd(RSum([i \in 1..Len(x) |-> RAbs(RMul(slope[i], x[i]))]), RAbs(offset))
Sizes(m, x) ==
  IF m.kind = "lwr"
  THEN LET a == NormActs(x, m.centers, m.widths)
       IN Now([b \in 1..Len(a) |-> RMul(a[b], LineSize(m.slopes[b], x, m.offsets[b]))])
  ELSE LET s == Terms(m, x) IN Now([i \in 1..Len(s) |-> RAbs(s[i])])
\* Is y the prediction for x, to within a tolerance relative to its terms (and
\* to a least size of these)?
PredictionNear(m, x, y, tol, least) ==
  IF m.kind = "lwr" /\ Dim(x, m.centers, m.widths)
  THEN LET l == LinesAt(m, x)
           t == RMul(tol, VScaleOf(l))
       IN RLe(RSub(RMinSeq(l), t), y) /\ RLe(y, RAdd(RMaxSeq(l), t))
  ELSE RNear(y, Predict(m, x), Zero, RMul(tol, RAdd(least, RSum(Sizes(m, x)))))
PredictionOk(m, x, y, tol) == PredictionNear(m, x, y, tol, One)
\* ... for a model and an input that are known exactly.
PredictionSharp(m, x, y, tol) == PredictionNear(m, x, y, tol, RDec("1e-280"))

----------------------------------------------------------------------------
(* Training.                                                               *)
LinSpace(a, b, n) == Now([i \in 1..n |-> IF n = 1 THEN a ELSE RAdd(a, RDiv(RMul(i - 1, RSub(b, a)), n - 1))])
DimCenters(xs, d, n) == LET c == Col(xs, d) IN LinSpace(RMinSeq(c), RMaxSeq(c), n)
DimWidth(xs, d, n, h) ==
  IF n = 1 THEN One
  ELSE LET c == DimCenters(xs, d, n)
           g == RSub(c[2], c[1])
       IN RSqrt(RDiv(RMul(g, g), RMul(-8, RLog(h))))
\* Number of the center in dimension d that belongs to basis function b (the last dimension runs fastest).
RECURSIVE Stride(_, _)
Stride(ns, d) == IF d = Len(ns) THEN 1 ELSE ns[d + 1] * Stride(ns, d + 1)
Digit(ns, b, d) == (((b - 1) \div Stride(ns, d)) % ns[d]) + 1
NBasis(ns) == ns[1] * Stride(ns, 1)
GridCenters(xs, ns) ==
  LET cs == Now([d \in 1..Len(ns) |-> DimCenters(xs, d, ns[d])])
  IN Now([b \in 1..NBasis(ns) |-> [d \in 1..Len(ns) |-> cs[d][Digit(ns, b, d)]]])
GridWidths(xs, ns, h) ==
  LET ws == Now([d \in 1..Len(ns) |-> DimWidth(xs, d, ns[d], h)])
  IN Now([b \in 1..NBasis(ns) |-> ws])

\* beta solves the weighted, regularized normal equations of rows X and targets y.
NormalEquations(X, y, w, reg, beta, tol) ==
  LET n == Len(X)
      res == Now([i \in 1..n |-> RMul(w[i], RSub(RDot(X[i], beta), y[i]))])
      p == Len(beta)
      \* scale: how large the terms of the equations are
      big(j) == RAdd(RAdd(RSum([i \in 1..n |-> RMul(w[i], RAbs(RMul(X[i][j],
                     RSum([k \in 1..p |-> RAbs(RMul(X[i][k], beta[k]))]))))]),
                 RSum([i \in 1..n |-> RMul(w[i], RAbs(RMul(X[i][j], y[i])))])), RMul(reg, RAbs(beta[j])))
  IN \A j \in 1..p :
       RLe(RAbs(RAdd(RSum([i \in 1..n |-> RMul(X[i][j], res[i])]), RMul(reg, beta[j]))),
           RAdd(RMul(tol, big(j)), RDec("1e-12")))

WithOne(X) == Now([i \in 1..Len(X) |-> Append(X[i], One)])
\* Is m what training with the samples xs, ys (and weights w) has to give?
\* meta: ns (basis functions per dimension), height, reg, offset, lengths, maxcov
TrainedClauses(kind, meta, xs, ys, w, m, tol) ==
  IF m.kind # kind THEN << <<"is trained", FALSE>> >>
  ELSE CASE kind = "wls" ->
         << <<"normal equations", IF meta.offset
              THEN Len(m.offset) = 1 /\ NormalEquations(WithOne(xs), ys, w, meta.reg, m.slope \o m.offset, tol)
              ELSE Len(m.offset) = 0 /\ NormalEquations(xs, ys, w, meta.reg, m.slope, tol)>> >>
    [] kind = "rbfn" ->
         << <<"centers on a grid", MNear(m.centers, GridCenters(xs, meta.ns), RDec("1e-12"), RDec("1e-12"))>>,
            <<"widths give the overlap", MNear(m.widths, GridWidths(xs, meta.ns, meta.height), RDec("1e-9"), Zero)>>,
            <<"normal equations", Len(m.weights) = Len(m.centers) /\
               NormalEquations([i \in 1..Len(xs) |-> Acts(xs[i], m.centers, m.widths)], ys, Vec(Len(xs), One),
                               meta.reg, m.weights, tol)>> >>
    [] kind = "lwr" ->
         << <<"centers on a grid", MNear(m.centers, GridCenters(xs, meta.ns), RDec("1e-12"), RDec("1e-12"))>>,
            <<"widths give the overlap", MNear(m.widths, GridWidths(xs, meta.ns, meta.height), RDec("1e-9"), Zero)>>,
            <<"normal equations", Len(m.offsets) = Len(m.centers) /\
               LET a == Now([i \in 1..Len(xs) |-> NormActs(xs[i], m.centers, m.widths)])
                   X == WithOne(xs)
               IN \A b \in 1..Len(m.offsets) :
                    NormalEquations(X, ys, Col(a, b), meta.reg, Append(m.slopes[b], m.offsets[b]), tol)>> >>
    [] kind = "gpr" ->
         << <<"kernels at the samples", MEq(m.inputs, xs) /\ MEq(m.lengths, [i \in 1..Len(xs) |-> meta.lengths])>>,
            <<"interpolates the targets", \A i \in 1..Len(xs) : PredictionOk(m, xs[i], ys[i], tol)>> >>

\* The same parameters, exactly.
IsMatrix(name) == name \in {"centers", "widths", "slopes", "inputs", "lengths"}
SameModel(a, b) ==
  /\ DOMAIN a = DOMAIN b /\ a.kind = b.kind
  /\ \A f \in DOMAIN a \ {"kind", "maxcov"} : IF IsMatrix(f) THEN MEq(a[f], b[f]) ELSE VEq(a[f], b[f])
\* The result of the same training: the same parameters up to rounding in the
\* solution of (perhaps ill-conditioned) equations, which leaves the
\* predictions at the samples the same.
SolvedFor == {"slope", "offset", "weights", "slopes", "offsets", "gram_inv_targets"}
SameTraining(a, b, xs) ==
  \/ SameModel(a, b)
  \/ /\ DOMAIN a = DOMAIN b /\ a.kind = b.kind
     /\ \A f \in DOMAIN a \ {"kind", "maxcov"} :
          IF f \in SolvedFor THEN Len(a[f]) = Len(b[f])
          ELSE MNear(a[f], b[f], RDec("1e-12"), RDec("1e-12"))
     /\ \A i \in 1..Len(xs) : PredictionOk(a, xs[i], Predict(b, xs[i]), RDec("1e-7"))

----------------------------------------------------------------------------
(* Parameter vectors: a selection is a sequence of names of fields.        *)
RECURSIVE Flat(_)
Flat(rows) == IF rows = << >> THEN << >> ELSE Head(rows) \o Flat(Tail(rows))
Values(m, name) == IF IsMatrix(name) THEN Flat(m[name]) ELSE m[name]
RECURSIVE GetParams(_, _)
GetParams(m, sel) == IF sel = << >> THEN << >> ELSE Values(m, Head(sel)) \o GetParams(m, Tail(sel))
Cut(v, n, k) == Now([i \in 1..n |-> [j \in 1..k |-> v[(i - 1) * k + j]]])      \* n rows of k numbers
SetField(m, name, v) ==
  IF IsMatrix(name) THEN [m EXCEPT ![name] = Cut(v, Len(m[name]), Len(m[name][1]))] ELSE [m EXCEPT ![name] = v]
RECURSIVE SetParams(_, _, _)
SetParams(m, sel, v) ==
  IF sel = << >> THEN m
  ELSE LET n == Len(Values(m, Head(sel)))
       IN SetParams(SetField(m, Head(sel), SubSeq(v, 1, n)), Tail(sel), SubSeq(v, n + 1, Len(v)))
=============================================================================
