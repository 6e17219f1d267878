----------------------------- MODULE TrajectoryMC -----------------------------
(***************************************************************************)
(* Histories of edits of two small trajectories whose rows are numbered:   *)
(* the edits of Trajectory keep them consistent.                           *)
(*                                                                         *)
(* Defect names what an edit does wrongly: "none"; "start": prepending     *)
(* does not consider the start time of what is prepended; "partial": an    *)
(* append that is refused has appended the times; "step": the mean time    *)
(* step stays that of the original; "align": cropping forgets the          *)
(* accelerations.                                                          *)
(* With Generate, every history of Depth names of edits is printed.        *)
(***************************************************************************)
EXTENDS Trajectory, TLC, Json

CONSTANTS Defect, Depth, Generate
VARIABLES t, u, depth, hist
vars == <<t, u, depth, hist>>

Row(i) == <<RAdd(RInt(i), Zero)>>
Reals(ts) == Now([i \in 1..Len(ts) |-> RAdd(RMul(ts[i], One), Zero)])
Traj(times, id, misc) ==
  LET ts == Reals(times) IN
  [ts |-> ts, ys |-> [i \in 1..Len(ts) |-> Row(id + i)], yds |-> [i \in 1..Len(ts) |-> Row(id + i)],
   ydds |-> [i \in 1..Len(ts) |-> Row(id + i)], misc |-> misc, dt |-> MeanStep(ts)]
Misc(n, c) == [i \in 1..n |-> [j \in 1..c |-> 7]]
Init == /\ t \in { Traj(<<0, 1, 2>>, 0, << >>), Traj(<<3, 5, 6, 8>>, 0, Misc(4, 1)) }
        /\ u \in { Traj(<<2, 3>>, 10, Misc(2, 1)), Traj(<<-1, 1, 2>>, 10, Misc(3, 2)) }
        /\ depth = 0 /\ hist = << >>

\* The edit, and what the defect makes of it.
Set(x) == t' = IF Defect = "step" THEN [x EXCEPT !.dt = t.dt] ELSE x
Crop(a, b) == a < b /\ a < Length(t) /\ LET c == Now(CropRows(t, a, b))
              IN Set(IF Defect = "align" THEN [c EXCEPT !.ydds = t.ydds] ELSE c)
CropTime(a, b) == RLt(a, b) /\ LET c == Now(CropTimes(t, a, b, TRUE)) IN Length(c) > 0 /\ Set(c)
DoAppend == IF Fits(t, u) THEN Set(Now(Append_(t, u)))
            ELSE t' = IF Defect = "partial" THEN [t EXCEPT !.ts = Append_(t, [u EXCEPT !.misc = << >>]).ts] ELSE t
DoPrepend == IF ~Fits(t, u) THEN t' = t
             ELSE IF Defect = "start" THEN Set(Now([Prepend(t, u) EXCEPT !.ts = u.ts \o Shifted(t.ts, RSub(RAdd(Duration(u), u.dt), t.ts[1]))]))
             ELSE Set(Now(Prepend(t, u)))

Edit(name) ==
  /\ depth < Depth /\ depth' = depth + 1 /\ hist' = IF Generate THEN Append(hist, name) ELSE hist
  /\ IF Generate THEN UNCHANGED <<t, u>> ELSE
     CASE name = "crop" -> UNCHANGED u /\ \E a \in 0..2 : \E b \in 1..4 : Crop(a, b)
       [] name = "croptime" -> UNCHANGED u /\ \E a \in 0..4 : \E b \in 1..7 : CropTime(a, b)
       [] name = "append" -> UNCHANGED u /\ DoAppend
       [] name = "prepend" -> UNCHANGED u /\ DoPrepend
       [] name = "padfront" -> UNCHANGED u /\ \E n \in 1..2 : Set(Now(PadFront(t, n)))
       [] name = "padend" -> UNCHANGED u /\ \E n \in 1..2 : Set(Now(PadEnd(t, n)))
       [] name = "zero" -> UNCHANGED u /\ Set(Now(StartAtZero(t)))
       [] name = "swap" -> t' = u /\ u' = t
       [] OTHER -> UNCHANGED <<t, u>>
Names == {"crop", "croptime", "append", "prepend", "padfront", "padend", "zero", "swap"}
          \cup (IF Generate THEN {"misc", "self", "bad", "file", "recompute"} ELSE {})
Next == \E name \in Names : Edit(name)
Spec == Init /\ [][Next]_vars

Aligned(x) == \A i \in 1..Length(x) : (REq(x.yds[i][1], x.ys[i][1]) \/ REq(x.yds[i][1], 0)) /\ REq(x.ydds[i][1], x.yds[i][1])
EditsKeepConsistent == \A x \in {t, u} : Consistent(x) /\ StepKnown(x) /\ Aligned(x)
Small == Length(t) <= 12 /\ Length(u) <= 12
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================
