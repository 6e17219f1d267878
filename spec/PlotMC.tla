------------------------------- MODULE PlotMC -------------------------------
(***************************************************************************)
(* Plots of an object that is changed now and then.  A plot draws the      *)
(* value the object has, or (as those of contextual DMPs do) the values it *)
(* has for several tasks, in axes that may have something in them already. *)
(*                                                                         *)
(* Restores: is the value back afterwards, when it has been changed for a  *)
(* plot?  Keeps: do the axes keep what is in them?  Fresh: is it the       *)
(* present value that is drawn (rather than that of the last plot)?        *)
(* With Generate every history of Depth calls is printed, to be executed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num, Json

CONSTANTS Restores, Keeps, Fresh, Depth, Generate
VARIABLES obj, asked, memo, sheet, want, hist
vars == <<obj, asked, memo, sheet, want, hist>>
Values == {1, 2}
Init == obj = 1 /\ asked = 1 /\ memo = 0 /\ sheet = << >> /\ want = << >> /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist
On(s, l) == IF Keeps THEN s \o l ELSE l

Change(v) == obj' = v /\ asked' = v /\ UNCHANGED <<memo, sheet, want>> /\ Log("change" \o ToString(v))
Plot == /\ LET v == IF Fresh \/ memo = 0 THEN obj ELSE memo
           IN memo' = v /\ sheet' = On(sheet, <<v>>)
        /\ want' = want \o <<asked>> /\ UNCHANGED <<obj, asked>> /\ Log("plot")
PlotFor == /\ sheet' = On(sheet, <<1, 2>>) /\ want' = want \o <<1, 2>>
           /\ obj' = IF Restores THEN obj ELSE 2
           /\ memo' = 2 /\ UNCHANGED asked /\ Log("plotfor")
Query == Generate /\ Log("query") /\ UNCHANGED <<obj, asked, memo, sheet, want>>
Next == Plot \/ PlotFor \/ Query \/ \E v \in Values : Change(v)
Spec == Init /\ [][Next]_vars

DrawsWhatIsThere == sheet = want
PlotsChangeNothing == obj = asked
Small == Len(want) < 6
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================
