----------------------------- MODULE DynSysNear -----------------------------
(* When recorded states and rates of a dynamical system are those of DynSys. *)
EXTENDS DynSys

Tol == RDec("1e-9")

\* A time system switches off at its end; where rounding decides on which
\* side of the end an intermediate state lies, both are right.
AtEnd(sys, x) == sys.kind = "time" /\ RNear(x[1], IF sys.down THEN 0 ELSE 1, Zero, RDec("1e-9"))
\* Beyond its left asymptote a Richards system has no (real) rates of change;
\* its dimensions are independent of one another.
\* Its range is a difference too: of its attractor and its initial state.
RangeTol(sys, i) ==
  IF sys.kind # "richards" THEN Tol
  ELSE LET size == RAbs(RSub(sys.attr[i], sys.xinit[i]))
       IN IF REq(size, Zero) THEN Tol ELSE RAdd(Tol, RDiv(RMul(RDec("1e-14"), RAdd(RAbs(sys.attr[i]), RAbs(sys.xinit[i]))), size))
Close(sys, u, v) ==
  IF sys.kind \notin {"richards", "sigmoid"} THEN VClose(u, v, Tol)
  ELSE Len(u) = Len(v) /\ \A i \in 1..Len(u) : IF RDef(v[i]) THEN VClose(<<u[i]>>, <<v[i]>>, RangeTol(sys, i)) ELSE TRUE
\* A system that grows without limit has soon no state left that a double can hold.
Wild(x) == \E i \in 1..Len(x) : RDef(x[i]) /\ RLt(RDec("1e25"), RAbs(x[i]))
\* Near the capacity of a sigmoid the rate is a small difference of large numbers.
NearCapacity(sys, x, xd, want) ==
  /\ sys.kind = "sigmoid"
  /\ Len(xd) = Len(x)
  /\ \A i \in 1..Len(x) : RNear(xd[i], want[i], Tol, RMul(RDec("1e-11"), RAbs(RMul(sys.rmax[i], x[i]))))
RateOk(sys, x, xd) == \/ Wild(x)
                      \/ Close(sys, xd, Rate(sys, x))
                      \/ NearCapacity(sys, x, xd, Rate(sys, x))
                      \/ AtEnd(sys, x) /\ Len(xd) = 1 /\ (RNear(xd[1], 0, Zero, Zero)
                            \/ RNear(xd[1], RDiv(IF sys.down THEN -1 ELSE 1, sys.tau), Tol, Zero))
\* The solution of a sigmoid depends on the small difference of its initial
\* state and its capacity, which rounding to doubles blurs.
SolTolOf(s) == IF s.kind # "sigmoid" THEN Tol
  ELSE RAdd(Tol, RDiv(RDec("1e-14"), RMinSeq([i \in 1..N(s) |-> RExp(RMul(RMul(s.rmax[i], s.tau), s.infl[i]))])))
\* (Where rounding to doubles leaves nothing of the difference, anything is as good.)
SolutionNear(sys, got, t) == RLt(One, SolTolOf(sys)) \/ VClose(got, Solution(sys, t), SolTolOf(sys))
StepOk(sys, method, dt, x, x2, xd2) ==
  LET G(y) == Rate(sys, y)
      want == IF method = "euler" THEN EulerStep(G, dt, x) ELSE RKStep(G, dt, x)
      edge == sys.kind = "time" /\ \E i \in 1..5 : AtEnd(sys, Stages(G, dt, x)[i])
  IN IF edge
     THEN /\ Len(x2) = 1 /\ Len(xd2) = 1
          /\ LET full == RAdd(x[1], RMul(dt, RDiv(IF sys.down THEN -1 ELSE 1, sys.tau)))
             IN /\ RLe(RSub(RMin(x[1], full), Tol), x2[1]) /\ RLe(x2[1], RAdd(RMax(x[1], full), Tol))
                /\ (method = "euler" \/ RateOk(sys, x2, xd2))
     ELSE IF Wild(x) \/ Wild(want[1]) \/ Wild(want[2]) THEN TRUE
     ELSE /\ Close(sys, x2, want[1])
          /\ (Close(sys, xd2, want[2]) \/ NearCapacity(sys, x2, xd2, want[2]))
=============================================================================
