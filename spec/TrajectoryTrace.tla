--------------------------- MODULE TrajectoryTrace ---------------------------
(* Recorded calls on trajectories against Trajectory.                      *)
EXTENDS Trajectory, Plot, TraceKit

VARIABLE slots            \* the trajectories, as they should be
None == [none |-> TRUE]
TraceInit == KitInit /\ slots = [i \in 1..Cfg.slots |-> None]

Tol == RDec("1e-10")
TimesNear(u, v) == VClose(u, v, Tol)
IsNone(t) == "none" \in DOMAIN t
\* A trajectory as reported, against the one it should be.
SameRows(v, t) == MEq(v.ys, t.ys) /\ MEq(v.yds, t.yds) /\ MEq(v.ydds, t.ydds) /\ MEq(v.misc, t.misc)
Unchanged(v, t) == VEq(v.ts, t.ts) /\ SameRows(v, t)
OthersUnchanged(e, i) == \A j \in 1..Len(slots) : (j # i /\ ~IsNone(slots[j])) => Unchanged(e.after[j], slots[j])
\* The times as recorded, if they are right up to rounding.
Adopt(t, v) == IF TimesNear(v.ts, t.ts) THEN WithTimes(t, v.ts) ELSE t
Seen(v, t) == [ts |-> v.ts, ys |-> v.ys, yds |-> v.yds, ydds |-> v.ydds, misc |-> v.misc, dt |-> t.dt]

\* What an edit should give.
Valid(e, t) ==
  CASE e.what \in {"crop", "croptime"} -> RLt(e.start, e.end)
    [] e.what \in {"append", "prepend"} -> Fits(t, slots[e.other])
    [] e.what = "misc" -> Len(e.v) = Length(t)
    [] OTHER -> TRUE
Edited(e, t, n) ==        \* n: the number of rows it has now
  CASE e.what = "crop" -> CropRows(t, e.start, e.end)
    [] e.what = "croptime" -> LET c == CropTimes(t, e.start, e.end, TRUE)
                              IN IF n = Length(c) THEN c ELSE CropTimes(t, e.start, e.end, FALSE)
    [] e.what = "append" -> Append_(t, slots[e.other])
    [] e.what = "prepend" -> Prepend(t, slots[e.other])
    [] e.what = "padfront" -> PadFront(t, e.n)
    [] e.what = "padend" -> PadEnd(t, e.n)
    [] e.what = "zero" -> StartAtZero(t)
    [] e.what = "misc" -> [t EXCEPT !.misc = e.v]
    [] OTHER -> t
TextTol == RDec("5.0001e-8")
\* (Doubles of 1e7 and more have fewer decimals.)
MText(a, b, tol) == MNear(a, b, RDec("1e-15"), tol)
\* What is saved as text, with so many decimals.
Text(what) == what \in {"text", "cpp-text", "cpp-file", "cpp-files"}
TolOf(what) == IF what \in {"text", "cpp-text"} THEN TextTol ELSE RDec("5.0001e-7")
SameText(v, t, tol) == VNear(v.ts, t.ts, Zero, tol) /\ MText(v.ys, t.ys, tol) /\ MText(v.yds, t.yds, tol)
                       /\ MText(v.ydds, t.ydds, tol) /\ MText(v.misc, t.misc, tol)

Edit(e) ==
  LET t == slots[e.slot]
      v == e.after[e.slot]
      ok == Valid(e, t)
  IN \E x \in { IF ok /\ e.out = "ok" THEN Now(Edited(e, t, Len(v.ts))) ELSE t } :
     /\ slots' = [slots EXCEPT ![e.slot] = Now(Adopt(x, v))]
     /\ Judge(<< <<"refuses what does not fit, and nothing else", (e.out = "ok") = ok>>,
                 <<"refused edits change nothing", (~ok /\ e.out # "ok") => Unchanged(v, t)>>,
                 <<"times after the edit", ok => TimesNear(v.ts, x.ts)>>,
                 <<"rows after the edit", ok => SameRows(v, x)>>,
                 <<"times increase, with one row each", Consistent(Seen(v, t))>>,
                 <<"nothing else changes", OthersUnchanged(e, e.slot) /\ e.unmodified>> >>)

Create(e) ==
  LET v == e.after[e.slot]
      dt == IF Len(e.ts) > 1 THEN MeanStep(e.ts) ELSE RDec("NaN")
      uni == Len(e.ts) > 1 /\ Uniform(e.ts)
  IN \E t \in { Now([ts |-> e.ts, ys |-> e.ys, yds |-> IF e.yds = << >> THEN v.yds ELSE e.yds,
                ydds |-> IF e.ydds = << >> THEN v.ydds ELSE e.ydds, misc |-> e.misc, dt |-> dt]) } :
     /\ slots' = [slots EXCEPT ![e.slot] = t]
     /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
              << <<"has the values it was given", Unchanged(v, t)>>,
                 <<"one row per time", Consistent(t)>>,
                 <<"velocities are derivatives of the positions", (e.yds = << >> /\ uni) => IsDerivative(v.yds, v.ys, dt) /\ EndsOk(v.yds, v.ys, dt)>>,
                 <<"accelerations are derivatives of the velocities", (e.ydds = << >> /\ uni) => IsDerivative(v.ydds, v.yds, dt) /\ EndsOk(v.ydds, v.yds, dt)>>,
                 <<"nothing else changes", OthersUnchanged(e, e.slot) /\ e.unmodified>> >>)

Read(e) ==
  LET t == slots[e.slot]
      n == Length(t)
      md == DimMisc(t)
      d == Dim(t)
  IN Judge(<< <<"numbers of time steps and dimensions", e.length = n /\ e.dim = d /\ e.dim_misc = md /\ e.has_misc = (t.misc # << >>)>>,
              <<"duration", RNear(e.duration, Duration(t), Zero, RMul(Tol, VScaleOf(t.ts)))>>,
              <<"mean time step", n > 1 => RNear(e.dt, MeanStep(t.ts), RDec("1e-9"), RMul(RDec("1e-14"), VScaleOf(t.ts)))>>,
              <<"first and last positions", VEq(e.y_init, t.ys[1]) /\ VEq(e.y_final, t.ys[n])>>,
              <<"range of the positions", VClose(e.range, RangePerDim(t), Tol)>>,
              <<"matrix", MEq(e.matrix, AsMatrix(t))>>,
              <<"table", MEq(e.table, AsMatrix(t)) /\ e.columns = e.names>>,
              <<"jerks are derivatives of the accelerations", (n > 2 /\ Uniform(t.ts)) => IsDerivative(e.yddds, t.ydds, MeanStep(t.ts))>>,
              <<"reading changes nothing", OthersUnchanged(e, 0)>> >>)

\* What the C++ implementation says of it.
CppRead(e) ==
  LET t == slots[e.slot]
      n == Length(t)
  IN Judge(<< <<"numbers of time steps and dimensions", e.length = n /\ e.dim = Dim(t) /\ e.dim_misc = DimMisc(t)>>,
              <<"duration", RNear(e.duration, Duration(t), Zero, RMul(Tol, VScaleOf(t.ts)))>>,
              <<"first and last positions", VEq(e.y_init, t.ys[1]) /\ VEq(e.y_final, t.ys[n])>>,
              <<"range of the positions", VClose(e.range, RangePerDim(t), Tol)>>,
              <<"matrix", MEq(e.matrix, AsMatrix(t))>> >>)
\* Saving a trajectory in C++, and then another one in the same file.
Save(e) ==
  LET t == IF e.overwrite THEN slots[e.other] ELSE slots[e.slot]
  IN Judge(<< <<"saves in a new file", e.one>>,
              <<"overwrites a file if it may only, and says so", e.two = e.overwrite>>,
              <<"the file has the trajectory that was saved last", e.out = "ok" /\ SameText(e.got, t, TolOf("cpp-file"))>>,
              <<"saving changes nothing", OthersUnchanged(e, 0)>> >>)

\* Through a file or matrix into another slot.
Through(e) ==
  LET t == slots[e.slot]
      v == e.after[e.to]
      \* The format has a fixed number of decimals: the times may coincide.
      x == IF ~Text(e.what) THEN t ELSE Seen(v, t)
  IN /\ slots' = IF e.out # "ok" THEN slots ELSE [slots EXCEPT ![e.to] = WithTimes(x, v.ts)]
     /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
              << <<"all rows are preserved", IF ~Text(e.what) THEN Unchanged(v, t) ELSE SameText(v, t, TolOf(e.what))>>,
                 <<"nothing else changes", OthersUnchanged(e, e.to)>> >>)

\* Derivatives computed anew, after filtering (or not).
Differentiate(e) ==
  LET t == slots[e.slot]
      v == e.after[e.slot]
      dt == MeanStep(t.ts)
      x == Now([t EXCEPT !.ys = v.ys, !.yds = v.yds, !.ydds = v.ydds])
      n == Length(t)
      mid == { i \in 1..n : 4 * i > n /\ 4 * i < 3 * n }
  IN /\ slots' = [slots EXCEPT ![e.slot] = IF e.out = "ok" THEN x ELSE t]
     /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
              << <<"times and misc do not change", VEq(v.ts, t.ts) /\ MEq(v.misc, t.misc) /\ Consistent(x)>>,
                 <<"positions do not change without a filter", e.what = "recompute" => MEq(v.ys, t.ys)>>,
                 <<"the filter keeps low frequencies and removes high ones", e.what = "filter" =>
                     \A i \in mid : VNear(v.ys[i], e.low[i], Zero, RDec("0.02"))>>,
                 <<"the filter keeps what does not change", e.what = "filter" =>
                     \A d \in 1..Dim(t) : (\A i \in 1..n : REq(t.ys[i][d], t.ys[1][d])) =>
                        \A i \in 1..n : RNear(v.ys[i][d], t.ys[i][d], RDec("1e-6"), RDec("1e-6"))>>,
                 <<"velocities are derivatives of the positions", Uniform(t.ts) => IsDerivative(v.yds, v.ys, dt) /\ EndsOk(v.yds, v.ys, dt)>>,
                 <<"accelerations are derivatives of the velocities", Uniform(t.ts) => IsDerivative(v.ydds, v.yds, dt) /\ EndsOk(v.ydds, v.yds, dt)>>,
                 <<"nothing else changes", OthersUnchanged(e, e.slot)>> >>)

\* Generated trajectories.
Generated(e) ==
  LET v == e.after[e.slot]
      rows == <<v.ys, v.yds, v.ydds>>
      n == Len(e.ts)
      k == ViaSample(e.ts, e.viatime)
      ok == e.what = "viapoint" => k > 1 /\ k < n
      t == Now([ts |-> e.ts, ys |-> v.ys, yds |-> v.yds, ydds |-> v.ydds, misc |-> << >>, dt |-> MeanStep(e.ts)])
  IN /\ slots' = IF e.out = "ok" THEN [slots EXCEPT ![e.slot] = t] ELSE slots
     /\ Judge(<< <<"viapoints have to lie within the trajectory", (e.out = "ok") = ok>>,
                 <<"at the times asked for", (ok /\ e.out = "ok") => VEq(v.ts, e.ts) /\ Consistent(t) /\ v.misc = << >> >>,
                 <<"is the polynomial with these boundary values", (ok /\ e.out = "ok") =>
                     IF e.what = "viapoint" THEN RowsOnPoly(e.ts, rows, e.from, e.via, 1, k) /\ RowsOnPoly(e.ts, rows, e.via, e.to, k, n)
                     ELSE RowsOnPoly(e.ts, rows, e.from, e.to, 1, n)>>,
                 <<"nothing else changes", OthersUnchanged(e, e.slot) /\ e.unmodified>> >>)

\* Positions that are quadratic in time: exact derivatives.
Quadratic(e) ==
  LET v == e.after[e.slot]
      n == Len(e.ts)
      at(i, d) == LET c == e.coefs[d] IN <<RAdd(c[2], RMul(2, RMul(c[3], e.ts[i]))), RMul(2, c[3])>>
      scale == RMul(RDec("1e-10"), RDiv(RMaxSeq([i \in 1..n |-> VScaleOf(v.ys[i])]), RMul(MeanStep(e.ts), MeanStep(e.ts))))
  IN /\ slots' = [slots EXCEPT ![e.slot] = [ts |-> e.ts, ys |-> v.ys, yds |-> v.yds, ydds |-> v.ydds, misc |-> v.misc, dt |-> MeanStep(e.ts)]]
     /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
              << <<"velocities", \A i \in 2..(n - 1) : \A d \in 1..Len(e.coefs) : RNear(v.yds[i][d], at(i, d)[1], Zero, RMul(scale, MeanStep(e.ts)))>>,
                 <<"accelerations", \A i \in 3..(n - 2) : \A d \in 1..Len(e.coefs) : RNear(v.ydds[i][d], at(i, d)[2], Zero, scale)>>,
                 <<"nothing else changes", OthersUnchanged(e, e.slot)>> >>)

\* Drawn in so many axes (as many as there are things to draw, if not given).
DrawnIn(t, k) ==
  LET parts == <<Lines(t.ts, t.ys), Lines(t.ts, t.yds), Lines(t.ts, t.ydds), Lines(t.ts, t.misc)>>
  IN parts[1] \o (IF k = 1 THEN << >> ELSE parts[2]) \o (IF k \in {1, 2} THEN << >> ELSE parts[3]) \o (IF k \in {0, 4} THEN parts[4] ELSE << >>)

Do(e) ==
  CASE e.op = "edit" -> Edit(e)
    [] e.op = "plot" -> UNCHANGED slots /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
              << <<"drawn as it is", Drawn(e.lines, DrawnIn(slots[e.slot], e.axes))>>, <<"nothing changes", OthersUnchanged(e, 0)>> >>)
    [] e.op = "create" -> Create(e)
    [] e.op = "read" -> UNCHANGED slots /\ Read(e)
    [] e.op = "cppread" -> UNCHANGED slots /\ CppRead(e)
    [] e.op = "save" -> UNCHANGED slots /\ Save(e)
    [] e.op = "through" -> Through(e)
    [] e.op = "differentiate" -> Differentiate(e)
    [] e.op = "generated" -> Generated(e)
    [] e.op = "quadratic" -> Quadratic(e)
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<slots, tr, pos>>
=============================================================================
