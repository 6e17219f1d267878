------------------------------- MODULE Robot -------------------------------
(***************************************************************************)
(* The robot of demos/robot: a hand that moves as it is told, and a ball   *)
(* that the hand holds until it is released, that then flies, and that     *)
(* stays where it has hit the floor.  (demos/robot/runSimulationThrowBall, *)
(* TaskThrowBall.py)                                                       *)
(*                                                                         *)
(* A state is [t, held, flies, y, v, a]: time, where the ball is, and its  *)
(* position, velocity and acceleration.                                    *)
(***************************************************************************)
EXTENDS Lin

Gravity == <<Zero, RDec("-9.81")>>
ReleaseTime == RDec("0.6")
Nowhere == <<Zero, Zero>>

RobotStart == [t |-> Zero, held |-> TRUE, flies |-> FALSE, y |-> Nowhere, v |-> Nowhere, a |-> Nowhere]
\* The hand moves (y, v, a), and takes the ball along; released tells whether it lets go of it.
Held(s, dt, y, v, a, released) == [t |-> RAdd(s.t, dt), held |-> ~released, flies |-> released, y |-> y, v |-> v, a |-> a]
Free(s, dt) ==
  LET v == VAdd(s.v, VScale(dt, Gravity))
  IN [t |-> RAdd(s.t, dt), held |-> FALSE, flies |-> TRUE, y |-> VAdd(s.y, VScale(dt, v)), v |-> v, a |-> Gravity]
Landed(s, dt, floor) ==
  LET f == Free(s, dt)
  IN [t |-> f.t, held |-> FALSE, flies |-> FALSE, y |-> <<f.y[1], floor>>, v |-> Nowhere, a |-> Nowhere]
Lying(s, dt) == [s EXCEPT !.t = RAdd(s.t, dt)]

\* The states that may come after s: one, but for rounding, which may decide when the ball is released, or lands.
Close == RDec("1e-5")
After(s, dt, y, v, a, floor) ==
  IF s.held
  THEN { Held(s, dt, y, v, a, r) : r \in { b \in BOOLEAN : RNear(s.t, ReleaseTime, Zero, RDec("1e-9")) \/ b = RLt(ReleaseTime, s.t) } }
  ELSE IF s.flies
  THEN LET h == RSub(Free(s, dt).y[2], floor)
       IN (IF RLe(RNeg(Close), h) THEN {Free(s, dt)} ELSE {}) \cup (IF RLe(h, Close) THEN {Landed(s, dt, floor)} ELSE {})
  ELSE {Lying(s, dt)}

\* Costs of a throw: how far from the place (with a margin) the ball lands, and accelerations of the hand.
ThrowCost(task, ball, ydds) ==
  LET d == RSub(RAbs(RSub(ball[1], task.goal)), task.margin)
      land == RMax(d, Zero)
      acc == IF RLt(0, task.weight) THEN RDiv(RMul(task.weight, RSum([i \in 1..Len(ydds) |-> RDot(ydds[i], ydds[i])])), Len(ydds)) ELSE Zero
  IN <<RAdd(land, acc), land, acc>>
=============================================================================
