------------------------------ MODULE RobotMC ------------------------------
(* A throw, with whole numbers: time in steps, and a hand that goes        *)
(* anywhere.  Sticky = FALSE is a floor on which the ball does not stop,   *)
(* Latched = FALSE a hand that gets hold of the ball again.                *)
EXTENDS Integers

CONSTANTS Sticky, Latched, Release, End, Floor, Places
VARIABLES t, at, y, x, v, vx, thrown
vars == <<t, at, y, x, v, vx, thrown>>

Init == t = 0 /\ at = "hand" /\ y \in Places /\ x \in Places /\ v = 0 /\ vx = 0 /\ thrown = FALSE
Move == /\ at = "hand" /\ \E a, b \in Places : y' = a /\ x' = b /\ v' = a - y /\ vx' = b - x
        /\ at' = IF t >= Release THEN "air" ELSE "hand"
        /\ thrown' = (t >= Release)
Fly == LET w == v - 1 h == y + w
       IN /\ at = "air"
          /\ x' = x + vx
          /\ IF h < Floor THEN /\ at' = (IF Sticky THEN "floor" ELSE "air") /\ y' = Floor /\ v' = 0 /\ vx' = (IF Sticky THEN 0 ELSE vx)
             ELSE at' = "air" /\ y' = h /\ v' = w /\ vx' = vx
          /\ UNCHANGED thrown
Lie == at = "floor" /\ UNCHANGED <<at, y, x, v, vx, thrown>>
Catch == ~Latched /\ at = "air" /\ at' = "hand" /\ UNCHANGED <<y, x, v, vx, thrown>>
Next == t < End /\ t' = t + 1 /\ (Move \/ Fly \/ Lie \/ Catch)
Spec == Init /\ [][Next]_vars

HeldUntilReleased == (at = "hand") = ~thrown
NotBelowFloor == thrown /\ at # "air" => y = Floor
NeverUnder == at = "air" => y >= Floor
StaysWhereItLanded == [][at = "floor" => x' = x /\ y' = y /\ at' = at]_vars
OneWay == [][/\ at = "air" => at' # "hand" /\ (y' = Floor /\ y' # y + v - 1 => vx' = 0)
             /\ (at = "air" /\ at' = "air" => vx' = vx)]_vars
=============================================================================
