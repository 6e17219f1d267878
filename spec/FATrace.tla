------------------------------- MODULE FATrace -------------------------------
(* Recorded calls on a function approximator against FA.                   *)
EXTENDS FA, Plot, TraceKit

VARIABLES m,      \* its model
          sel,    \* the selected parameters
          dim     \* number of columns of the inputs
TraceInit == KitInit /\ m = NoModel /\ sel = << >> /\ dim = 0

Trained == m.kind # "none"
Params == GetParams(m, sel)
Tol == RDec("1e-9")
TrainTol == RDec("1e-6")
\* The points of a line are <<inputs>> \o <<value>>.
In(pt) == SubSeq(pt, 1, dim)
Out(pt) == pt[dim + 1]
PlotClauses(e) ==
  LET k == Len(e.xs)
      isFor(l) == Len(l) = k /\ \A i \in 1..k : VEq(In(l[i]), e.xs[i])
      predicted(l) == \A i \in 1..Len(l) : PredictionSharp(m, In(l[i]), Out(l[i]), Tol)
      first == Col(e.xs, 1)
      grid == LinSpace(RMinSeq(first), RMaxSeq(first), 101)
      residual(l, q) == Len(l) = 2 /\ VEq(In(l[1]), e.xs[q]) /\ VEq(In(l[2]), e.xs[q]) /\ REq(Out(l[1]), e.ys[q]) /\ PredictionSharp(m, In(l[2]), Out(l[2]), Tol)
      \* one component of the model at grid point x, for basis function b
      component(x, b, y) == IF m.kind = "lwr" THEN ~RDef(y) \/ RNear(y, LineAt(m, x, b), Zero, RMul(Tol, RAdd(One, RAdd(RAbs(RDot(m.slopes[b], x)), RAbs(m.offsets[b])))))
                            ELSE RNear(y, Terms(m, x)[b], Zero, RMul(Tol, RAdd(One, RAbs(Terms(m, x)[b]))))
      basis == IF m.kind = "wls" THEN 0 ELSE IF m.kind = "gpr" THEN Len(m.inputs) ELSE Len(m.centers)
      componentLine(l, b) == Len(l) = 101 /\ (\A i \in 1..101 : RNear(l[i][1], grid[i], Tol, Tol) /\ component(In(l[i]), b, Out(l[i])))
      L == e.lines
  IN << <<"what was given is unchanged", e.unmodified>>,
        <<"the predictions for the inputs are drawn", \E i \in 1..Len(L) : isFor(L[i]) /\ predicted(L[i])>>,
        <<"targets are drawn", e.targets => \E i \in 1..Len(L) : isFor(L[i]) /\ \A j \in 1..k : REq(Out(L[i][j]), e.ys[j])>>,
        <<"residuals are drawn", (e.targets /\ e.residuals) => \A i \in 1..k : \E j \in 1..Len(L) : residual(L[j], i)>>,
        <<"the model is drawn on a grid over the inputs", dim = 1 =>
            /\ Len(e.grid) = 1 /\ VNear(e.grid[1].x, grid, Tol, Tol)
            /\ \A i \in 1..101 : PredictionSharp(m, <<e.grid[1].x[i]>>, e.grid[1].y[i], Tol)>>,
        <<"the components of the model are drawn", (e.model /\ dim = 1) =>
            /\ \A b \in 1..basis : \E i \in 1..Len(L) : componentLine(L[i], b)
            \* lines of a locally weighted regression are drawn where they matter: everywhere some
            /\ m.kind = "lwr" => LET own == { i \in 1..Len(L) : \E b \in 1..basis : componentLine(L[i], b) }
                                IN \A q \in 1..101 : \E i \in own : RDef(Out(L[i][q]))>> >>
Do(e) ==
  CASE e.op = "train" ->
         /\ m' = IF e.out = "ok" THEN e.model ELSE m
         /\ dim' = IF e.out = "ok" THEN Len(e.xs[1]) ELSE dim
         /\ UNCHANGED sel
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
                  << <<"is trained", e.trained>>, <<"data unchanged", e.unmodified>>,
                     <<"same as a new approximator trained with the data", SameTraining(e.model, e.fresh, e.xs)>> >>
                  \o TrainedClauses(Cfg.kind, Cfg.meta, e.xs, e.ys, e.w, e.model, TrainTol))
    [] e.op = "predict" ->
         /\ UNCHANGED <<m, sel, dim>>
         /\ LET good == Trained /\ Len(e.xs[1]) = dim
            IN Judge(<< <<"accepts inputs of the right size when trained only", (e.out = "ok") = good>>,
                        <<"inputs unchanged", e.unmodified>> >>
                     \o (IF e.out = "ok" /\ good THEN
                     << <<"one prediction per input", Len(e.ys) = Len(e.xs)>>,
                        <<"predictions are those of the model", Len(e.ys) = Len(e.xs) /\
                            \A i \in 1..Len(e.xs) : PredictionSharp(m, e.xs[i], e.ys[i], Tol)>>,
                        <<"repeated predictions are the same", e.again>>,
                        <<"each prediction depends on its own input only", e.single>> >> ELSE << >>))
    [] e.op = "plot" ->
         /\ UNCHANGED <<m, sel, dim>>
         /\ Judge(IF ~Trained \/ (e.saved /\ (Len(e.xs[1]) # dim \/ dim > 2)) THEN << <<"nothing is drawn", e.out # "ok">> >>
                  ELSE IF ~e.saved THEN << <<"nothing is drawn when there is nothing to draw", e.out = "nothing">> >>
                  ELSE IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE PlotClauses(e))
    [] e.op = "acts" ->
         /\ UNCHANGED <<m, sel, dim>>
         /\ Judge(IF e.out # "ok" THEN << <<"accepted", FALSE>> >> ELSE
              << <<"activations are those of the kernels", Len(e.a) = Len(e.xs) /\ \A i \in 1..Len(e.xs) :
                    IF ~e.norm THEN VNear(e.a[i], Acts(e.xs[i], e.cs, e.ws), Tol, Tol)
                    ELSE Dim(e.xs[i], e.cs, e.ws) \/ VNear(e.a[i], NormActs(e.xs[i], e.cs, e.ws), Tol, Tol)>>,
                 <<"normalized activations sum to one", e.norm => \A i \in 1..Len(e.a) :
                    /\ RNear(RSum(e.a[i]), 1, Zero, RDec("1e-12"))
                    /\ \A b \in 1..Len(e.a[i]) : RLe(0, e.a[i][b])>> >>)
    [] e.op = "select" ->
         /\ sel' = e.names
         /\ UNCHANGED <<m, dim>>
         /\ Judge(<< <<"accepted", e.out = "ok">> >>)
    [] e.op = "get" ->
         /\ UNCHANGED <<m, sel, dim>>
         /\ Judge(IF ~Trained THEN << >> ELSE
                  << <<"gives the selected parameters", e.out = "ok" /\ VEq(e.v, Params)>>,
                     <<"size of the parameter vector", e.sizeout = "ok" /\ e.size = Len(Params)>>,
                     <<"flat vector", e.flat>> >>)
    [] e.op = "set" ->
         LET good == Trained /\ Len(e.v) = Len(Params)
         IN /\ m' = IF good THEN Now(SetParams(m, sel, e.v)) ELSE m
            /\ UNCHANGED <<sel, dim>>
            /\ Judge(<< <<"accepts vectors of the right size when trained only", (e.out = "ok") = good>>,
                        <<"argument unchanged", e.unmodified>> >>)
    [] e.op = "json" -> UNCHANGED <<m, sel, dim>> /\ Judge(<< <<"saved and loaded", e.out = "ok">> >>)
    [] e.op = "mutate" -> UNCHANGED <<m, sel, dim>>
    [] e.op = "read" ->        \* all parameters, read one at a time from a copy
         /\ UNCHANGED <<m, sel, dim>>
         /\ Judge(<< <<"parameters are those that were set or trained", SameModel(e.model, m)>> >>)
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<m, sel, dim, tr, pos>>
=============================================================================
