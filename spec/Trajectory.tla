------------------------------ MODULE Trajectory ------------------------------
(***************************************************************************)
(* Trajectories: positions, velocities, accelerations and miscellaneous    *)
(* variables over time, and what is done with them.                        *)
(* (dmpbbo/dmps/Trajectory.py, src/dmp/Trajectory.cpp)                     *)
(*                                                                         *)
(* A trajectory t is a record with                                         *)
(*   ts               times, strictly increasing                           *)
(*   ys, yds, ydds    matrices, with one row per time                      *)
(*   misc             such a matrix, or << >>                              *)
(*   dt               mean time step; with less than two times, the one    *)
(*                    known before                                         *)
(***************************************************************************)
EXTENDS Lin

Length(t) == Len(t.ts)
Cols(m) == IF m = << >> THEN 0 ELSE Len(m[1])
Dim(t) == Cols(t.ys)
DimMisc(t) == Cols(t.misc)
IsTable(m, n, c) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = c
Increasing(ts) == \A i \in 2..Len(ts) : RLt(ts[i - 1], ts[i])
MeanStep(ts) == RDiv(RSub(ts[Len(ts)], ts[1]), Len(ts) - 1)
\* One row per time, and increasing times.
Consistent(t) ==
  LET n == Length(t) IN
  /\ Increasing(t.ts)
  /\ \E c \in {Dim(t)} : IsTable(t.ys, n, c) /\ IsTable(t.yds, n, c) /\ IsTable(t.ydds, n, c)
  /\ (t.misc # << >> => IsTable(t.misc, n, DimMisc(t)))
StepKnown(t) == Length(t) > 1 => RNear(t.dt, MeanStep(t.ts), RDec("1e-9"), Zero)

WithTimes(t, ts) == [t EXCEPT !.ts = ts, !.dt = IF Len(ts) > 1 THEN MeanStep(ts) ELSE @]
Duration(t) == RSub(t.ts[Length(t)], t.ts[1])
Shifted(ts, by) == Now([i \in 1..Len(ts) |-> RAdd(ts[i], by)])
Concat(t, u, ts) ==
  WithTimes([t EXCEPT !.ys = t.ys \o u.ys, !.yds = t.yds \o u.yds, !.ydds = t.ydds \o u.ydds,
                      !.misc = IF t.misc = << >> \/ u.misc = << >> THEN << >> ELSE t.misc \o u.misc], ts)

(* Edits. *)
Rows(t, from, to) ==           \* rows from..to, counted from 1
  WithTimes([t EXCEPT !.ys = SubSeq(@, from, to), !.yds = SubSeq(@, from, to), !.ydds = SubSeq(@, from, to),
                      !.misc = IF @ = << >> THEN @ ELSE SubSeq(@, from, to)], SubSeq(t.ts, from, to))
\* Rows with index start <= i < end, counted from 0.
CropRows(t, start, end) == Rows(t, start + 1, IF end < Length(t) THEN end ELSE Length(t))
\* Rows with times start <= time < end.  (Whether a row exactly at the end stays is open.)
First(ts, P(_)) == CHOOSE i \in 1..(Len(ts) + 1) : (i = Len(ts) + 1 \/ P(ts[i])) /\ \A j \in 1..(i - 1) : ~P(ts[j])
CropTimes(t, start, end, open) ==
  LET from == First(t.ts, LAMBDA x : RLe(start, x))
      to == First(t.ts, LAMBDA x : IF open THEN RLe(end, x) ELSE RLt(end, x)) - 1
  IN IF RLt(t.ts[Length(t)], start) \/ RLt(end, t.ts[1]) THEN t ELSE Rows(t, from, to)
Fits(t, u) == Dim(t) = Dim(u) /\ (t.misc # << >> /\ u.misc # << >> => DimMisc(t) = DimMisc(u))
Append_(t, u) == Concat(t, u, t.ts \o Shifted(u.ts, RSub(RAdd(t.ts[Length(t)], t.dt), u.ts[1])))
Prepend(t, u) ==
  LET c == Concat(u, t, u.ts \o Shifted(t.ts, RSub(RAdd(u.ts[Length(u)], u.dt), t.ts[1]))) IN c
Resting(t, i, n) ==            \* n rows at rest in row i
  [ts |-> Now([j \in 1..n |-> RMul(j - 1, t.dt)]), ys |-> [j \in 1..n |-> t.ys[i]],
   yds |-> [j \in 1..n |-> Zeros(Dim(t))], ydds |-> [j \in 1..n |-> Zeros(Dim(t))],
   misc |-> IF t.misc = << >> THEN << >> ELSE [j \in 1..n |-> t.misc[i]], dt |-> t.dt]
PadFront(t, n) == Prepend(t, Resting(t, 1, n))
PadEnd(t, n) == Append_(t, Resting(t, Length(t), n))
StartAtZero(t) == WithTimes(t, Shifted(t.ts, RNeg(t.ts[1])))
RangePerDim(t) == Now([d \in 1..Dim(t) |-> LET c == Col(t.ys, d) IN RSub(RMaxSeq(c), RMinSeq(c))])
AsMatrix(t) == Now([i \in 1..Length(t) |->
   <<t.ts[i]>> \o t.ys[i] \o t.yds[i] \o t.ydds[i] \o (IF t.misc = << >> THEN << >> ELSE t.misc[i])])

----------------------------------------------------------------------------
(* Derivatives from samples at a distance of dt: central differences.      *)
Uniform(ts) == \A i \in 2..Len(ts) : RNear(RSub(ts[i], ts[i - 1]), MeanStep(ts), RDec("1e-6"), Zero)
Central(m, i, dt) == VScale(RDiv(1, RMul(2, dt)), VSub(m[i + 1], m[i - 1]))
DiffTol(m, dt) == RDiv(RMul(RDec("1e-11"), RMaxSeq([i \in 1..Len(m) |-> VScaleOf(m[i])])), dt)
IsDerivative(d, m, dt) ==      \* away from the ends
  Len(d) = Len(m) /\ \A i \in 2..(Len(m) - 1) : VNear(d[i], Central(m, i, dt), Zero, DiffTol(m, dt))
\* At the ends there is no central difference: any value between or near those of the neighbours.
EndsOk(d, m, dt) ==
  /\ \A i \in {1, Len(d)} : \A j \in 1..Len(d[i]) : RDef(d[i][j])
  /\ (Len(m) = 2 => \A i \in 1..2 : VNear(d[i], VScale(RDiv(1, dt), VSub(m[2], m[1])), Zero, DiffTol(m, dt)))

----------------------------------------------------------------------------
(* Generated trajectories: polynomials of degree 5 in s, the time relative *)
(* to the duration.  Basis[k] takes the k-th of position, velocity and     *)
(* acceleration at s = 0, then at s = 1, as a value of 1 and the others    *)
(* of 0.                                                                   *)
Basis == <<
  << 1, 0, 0, -10, 15, -6 >>, << 0, 1, 0, -6, 8, -3 >>, << 0, 0, Half, RDec("-1.5"), RDec("1.5"), RDec("-0.5") >>,
  << 0, 0, 0, 10, -15, 6 >>, << 0, 0, 0, -4, 7, -3 >>, << 0, 0, 0, Half, -1, Half >> >>
Derive(c) == Now([i \in 1..(Len(c) - 1) |-> RMul(i, c[i + 1])])
Eval(c, s) == LET p == Now([i \in 1..Len(c) |-> IF i = 1 THEN c[1] ELSE RMul(c[i], RPow(s, i - 1))]) IN RSum(p)
ASSUME \A k \in 1..6 : LET c == Basis[k]
                           v == << Eval(c, 0), Eval(Derive(c), 0), Eval(Derive(Derive(c)), 0),
                                   Eval(c, 1), Eval(Derive(c), 1), Eval(Derive(Derive(c)), 1) >>
                       IN \A j \in 1..6 : REq(v[j], IF j = k THEN 1 ELSE 0)
\* The polynomial from b[1], with velocity b[2] and acceleration b[3], to b[4], b[5] and b[6].
Poly(b, D) ==
  LET w == <<b[1], RMul(b[2], D), RMul(b[3], RMul(D, D)), b[4], RMul(b[5], D), RMul(b[6], RMul(D, D))>>
  IN Now([i \in 1..6 |-> RSum([k \in 1..6 |-> RMul(w[k], Basis[k][i])])])
PolyScale(b, D) == RMaxSeq(<<RAbs(b[1]), RAbs(RMul(b[2], D)), RAbs(RMul(b[3], RMul(D, D))),
                             RAbs(b[4]), RAbs(RMul(b[5], D)), RAbs(RMul(b[6], RMul(D, D))), RDec("1e-300")>>)
\* Rows i of ys, yds, ydds (one dimension) of the polynomial over times t0..t0+D
OnPoly(b, t0, D, t, y, yd, ydd) ==
  LET c == Poly(b, D)
      s == RDiv(RSub(t, t0), D)
      \* the times are known up to rounding only
      tol == RMul(PolyScale(b, D), RAdd(RDec("1e-11"), RDiv(RMul(RDec("1e-13"), RAdd(RAbs(t), RAbs(t0))), D)))
  IN /\ RNear(y, Eval(c, s), Zero, tol)
     /\ RNear(RMul(yd, D), Eval(Derive(c), s), Zero, RMul(10, tol))
     /\ RNear(RMul(ydd, RMul(D, D)), Eval(Derive(Derive(c)), s), Zero, RMul(100, tol))
Bound6(from, to, d) == <<from[1][d], from[2][d], from[3][d], to[1][d], to[2][d], to[3][d]>>
RowsOnPoly(ts, rows, from, to, first, last) ==
  \A i \in first..last : \A d \in 1..Len(from[1]) :
     OnPoly(Bound6(from, to, d), ts[first], RSub(ts[last], ts[first]), ts[i], rows[1][i][d], rows[2][i][d], rows[3][i][d])
\* The sample of a viapoint: the first one that is not before its time.
ViaSample(ts, time) == First(ts, LAMBDA x : RLe(time, x))
=============================================================================
