------------------------------ MODULE BasisTrace ------------------------------
(***************************************************************************)
(* Basis functions called directly (basis_functions.py, BasisFunction.hpp) *)
(***************************************************************************)
EXTENDS FA, TraceKit

\* An asymmetric kernel has the width of the kernel before it on its left side.
SideWidth(x, cs, ws, b, d) == IF b > 1 /\ RLt(x[d], cs[b][d]) THEN ws[b - 1][d] ELSE ws[b][d]
Sided(x, cs, ws, b) == [d \in 1..Len(x) |-> SideWidth(x, cs, ws, b, d)]
Gaussians(x, e) == Now([b \in 1..Len(e.centers) |->
  Act(x, e.centers[b], IF e.asymmetric THEN Sided(x, e.centers, e.widths, b) ELSE e.widths[b])])
Covariances(x, e) == Now([b \in 1..Len(e.centers) |->
  LET d == VSub(x, e.centers[b])
  IN RMul(e.priors[b], RExp(RMul(RNeg(Half), RDot(d, Solve(e.covars[b], d)))))])
\* cos(x) as the sum of its Taylor series, after halving x often enough: cos(2x) = 2 cos(x)^2 - 1
RECURSIVE CosSmall(_, _, _, _)
CosSmall(x2, k, term, sum) ==
  IF k > 12 THEN sum
  ELSE LET t == RDiv(RMul(RNeg(term), x2), (2 * k - 1) * (2 * k)) IN CosSmall(x2, k + 1, t, RAdd(sum, t))
RECURSIVE Cos(_)
Cos(x) == IF RLe(RAbs(x), Half) THEN CosSmall(RMul(x, x), 1, One, One)
          ELSE LET c == Cos(RDiv(x, 2)) IN RSub(RMul(2, RMul(c, c)), One)
Cosines(x, e) == Now([b \in 1..Len(e.centers) |-> Cos(RAdd(RDot(e.centers[b], x), e.phases[b]))])

Raw(x, e) == CASE e.what = "gaussian" -> Gaussians(x, e) [] e.what = "covariances" -> Covariances(x, e) [] OTHER -> Cosines(x, e)
RowOk(x, a, e) ==
  IF ~e.normalized THEN VNear(a, Raw(x, e), RDec("1e-9"), RDec("1e-12"))
  ELSE IF Len(e.centers) = 1 THEN Len(a) = 1 /\ REq(a[1], One)
  ELSE LET r == Raw(x, e)
           s == RSum(r)
       IN /\ Len(a) = Len(e.centers)
          /\ \A b \in 1..Len(a) : RLe(Zero, a[b])
          /\ RNear(RSum(a), One, RDec("1e-9"), Zero)
          /\ RLt(RMaxSeq(r), RDec("1e-290")) \/ VNear(a, [b \in 1..Len(r) |-> RDiv(r[b], s)], RDec("1e-9"), RDec("1e-12"))
Do(e) ==
  Judge(<< <<"no failure", e.out = "ok">>,
           <<"inputs unchanged", e.out = "ok" => e.unmodified>>,
           <<"the documented activation, one row per input", e.out = "ok" =>
              (Len(e.a) = Len(e.xs) /\ \A i \in 1..Len(e.xs) : RowOk(e.xs[i], e.a[i], e))>> >>)
Next == KitStep /\ Do(Event)
TraceSpec == KitInit /\ [][Next]_<<tr, pos>>
=============================================================================
